package msgp

import (
	"errors"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/msgpack"
)

const nReads = 35

// read performs one reading operation and returns any bytes it produced.
func read(d *msgpack.Decoder, op int) (out []byte, err error) {
	switch op {
	case 0:
		_, err = d.IsNextNil()
	case 1:
		_, err = d.ReadBool()
	case 2:
		_, err = d.ReadNillableBool()
	case 3, 4, 5, 6, 7, 8, 9, 10:
		_, _, err = readInt(d, op-3)
	case 11, 12, 13, 14, 15, 16, 17, 18:
		_, _, err = readUint(d, op-11)
	case 19:
		_, err = d.ReadFloat32()
	case 20:
		_, err = d.ReadNillableFloat32()
	case 21:
		_, err = d.ReadFloat64()
	case 22:
		_, err = d.ReadNillableFloat64()
	case 23:
		var s string
		s, err = d.ReadString()
		out = []byte(s)
	case 24:
		var s *string
		s, err = d.ReadNillableString()
		if s != nil {
			out = []byte(*s)
		}
	case 25:
		out, err = d.ReadByteArray()
	case 26:
		out, err = d.ReadNillableByteArray()
	case 27:
		_, err = d.ReadArraySize()
	case 28:
		_, err = d.ReadMapSize()
	case 29:
		_, err = d.ReadTime()
	case 30:
		_, err = d.ReadNillableTime()
	case 31:
		err = d.Skip()
	case 32:
		_, err = msgpack.ReadSlice(d, msgpack.Reader.ReadUint8)
	case 33:
		_, err = msgpack.ReadMap(d, msgpack.Reader.ReadUint8, msgpack.Reader.ReadBool)
	case 34:
		_, err = d.ReadAny()
	}
	return out, err
}

// Reads performs one reading operation on arbitrary bytes, then another one.
//
//sv:harness prop=C14 time=120
//sv:bound 33 reading operations (not the generic one, see ReadsAny; timestamps as text, see ReadsTimeText; skip, list and map reading up to 3 bytes), every input of up to 20 bytes (20 KiB of storage may lie beyond the input)
func Reads() {
	op := sv.Choose("op", nReads-1)
	max := 20
	if op >= 31 {
		max = 3
		if sv.Deep() {
			max = 5
		}
	}
	// the input is the start of a larger array, which must stay out of sight
	n := sv.IntRange("n", 0, max)
	store := sv.BytesN("store", max+64)
	in := store[:n]
	d := msgpack.NewDecoder(in)
	sv.AllocLimit(1 << 12)
	if op == 29 || op == 30 {
		c := store[0] // see ReadsTimeText for timestamps written as text
		sv.Assume(sv.Or(c < 0x90, sv.And(c >= 0xc0, sv.Or(c < 0xd9, c >= 0xde))))
	}
	out, err := read(&d, op)
	sv.AllocLimit(0)
	if err == nil && out != nil && len(out) > 0 {
		sv.Assert(len(out) < n, "more-than-input")
		h, body, nested, ok := head(in)
		sv.Assert(ok, "read-malformed")
		// an array header is read as the length of a string or byte array
		l := body
		if body == 0 {
			l = nested
		}
		sv.Assert(uint64(len(out)) == l && uint64(h)+l <= uint64(n), "extent")
		sv.SameBytes(out, in[h:h+len(out)], "content")
		sv.Reach("bytes")
	}
	if d.Err() != nil {
		sv.Assert(err != nil, "err-hidden")
		sv.Assert(errors.Is(d.Err(), msgpack.ErrRange), "err-kind")
		op2 := []int{0, 6, 14, 23, 31, 34}[sv.Choose("op2", 6)]
		_, err2 := read(&d, op2)
		sv.Assert(err2 != nil && errors.Is(d.Err(), msgpack.ErrRange), "error-forgotten")
		sv.Reach("sticky")
	}
	if err == nil {
		sv.Reach("ok")
	}
}

// ReadsTimeText reads timestamps from inputs that hold text.
//
//sv:harness prop=C14 time=60 dtime=300
//sv:bound every input of up to 11 bytes (14 in the thorough tier) that starts as text
func ReadsTimeText() {
	max := 11
	if sv.Deep() {
		max = 14
	}
	b := sv.Bytes("b", max)
	sv.Assume(len(b) > 0 && b[0] >= 0xa0 && b[0] < 0xc0)
	d := msgpack.NewDecoder(b)
	sv.AllocLimit(1 << 12)
	_, err := read(&d, 29)
	sv.AllocLimit(0)
	sv.Assert(err != nil, "accepted")
	sv.Reach("done")
}

// LongReads reads strings and byte arrays out of large inputs.
//
//sv:harness prop=C14
//sv:bound every input of up to 70000 bytes that starts with any byte
func LongReads() {
	n := sv.IntRange("n", 0, maxText)
	store := sv.Bytes("store", maxText+64)
	sv.Assume(n <= len(store))
	in := store[:n]
	d := msgpack.NewDecoder(in)
	var out []byte
	var err error
	if sv.Bool("string") {
		out, err = read(&d, 23)
	} else {
		out, err = d.ReadByteArray()
		sv.Assert(cap(out) <= len(store), "cap")
	}
	if err == nil && len(out) > 0 {
		h, body, nested, ok := head(in)
		l := body + nested
		sv.Assert(ok && uint64(len(out)) == l && uint64(h)+l <= uint64(n), "extent")
		sv.SameBytes(out, in[h:h+len(out)], "content")
		sv.Reach("bytes")
	}
	if err == nil {
		sv.Reach("ok")
	}
}

// ReadsAny reads a generic value from arbitrary bytes.
//
//sv:harness prop=C14 time=150 dtime=600
//sv:bound every input of up to 4 bytes (6 in the thorough tier); maps compare keys of the same kind
func ReadsAny() {
	max := 4
	if sv.Deep() {
		max = 6
	}
	b := sv.Bytes("b", max)
	d := msgpack.NewDecoder(b)
	sv.AllocLimit(1 << 14)
	_, err := d.ReadAny()
	sv.AllocLimit(0)
	if err == nil {
		sv.Assert(extent(b) > 0, "malformed-accepted")
		sv.Reach("ok")
	} else {
		sv.Reach("err")
	}
	if d.Err() != nil {
		_, err = d.ReadAny()
		sv.Assert(err != nil, "error-forgotten")
		sv.Reach("sticky")
	}
}

// Claims checks allocation for headers that claim more than the input holds.
//
//sv:harness prop=C14
//sv:bound every 32-bit count or length in every array, map, string, byte array and extension form, followed by 3 elements; also nested one level
func Claims() {
	n := sv.U32("n")
	sv.Assume(n > 3)
	codes := []struct {
		c byte
		n int
	}{{0xdc, 2}, {0xdd, 4}, {0xde, 2}, {0xdf, 4}, {0xd9, 1}, {0xda, 2}, {0xdb, 4}, {0xc4, 1}, {0xc5, 2}, {0xc6, 4}, {0xc7, 1}, {0xc8, 2}, {0xc9, 4}}
	k := codes[sv.Choose("code", len(codes))]
	if k.n < 4 {
		sv.Assume(n < 1<<(8*uint(k.n)))
	}
	h := app([]byte{k.c}, uint64(n), k.n)
	var b []byte
	if sv.Bool("nested") {
		b = append(b, 0x91)
	}
	b = append(b, h...)
	b = append(b, 1, 2, 3)
	d := msgpack.NewDecoder(b)
	sv.AllocLimit(1 << 14)
	op := []int{34, 31, 32, 33, 23, 25, 29}[sv.Choose("op", 7)]
	_, err := read(&d, op)
	sv.AllocLimit(0)
	if op == 34 || op == 31 {
		sv.Assert(err != nil, "truncated-accepted")
	}
	sv.Reach("done")
}

// Nesting reads deeply nested values.
//
//sv:harness prop=C14 depth=30000 steps=20000000
//sv:bound arrays nested 12000 deep, read generically and skipped: the depth of the call stack is bounded
func Nesting() {
	const n = 12000
	b := make([]byte, n)
	for i := range b {
		b[i] = 0x91
	}
	d := msgpack.NewDecoder(b)
	var err error
	if sv.Bool("skip") {
		err = d.Skip()
	} else {
		_, err = d.ReadAny()
	}
	sv.Assert(err != nil, "accepted")
	sv.Reach("done")
}

// Skips checks that skipping a value consumes exactly that value.
//
//sv:harness prop=C15 time=150 dtime=600
//sv:bound every well-formed value of up to 4 bytes (6 in the thorough tier), whatever its family and nesting
func Skips() {
	max := 4
	if sv.Deep() {
		max = 6
	}
	b := sv.Bytes("b", max)
	n := extent(b)
	sv.Assume(n == len(b))
	d := msgpack.NewDecoder(marked(b))
	sv.Assert(d.Skip() == nil, "refused")
	atMark(&d, "consumed")
	sv.Reach("done")
}

// SkipsCut checks that skipping an input that holds no whole value fails.
//
//sv:harness prop=C15 time=150 dtime=600
//sv:bound every input of up to 4 bytes (6 in the thorough tier) that is not the start of a whole value
func SkipsCut() {
	max := 4
	if sv.Deep() {
		max = 6
	}
	b := sv.Bytes("b", max)
	sv.Assume(extent(b) < 0)
	d := msgpack.NewDecoder(b)
	sv.Assert(d.Skip() != nil, "accepted")
	sv.Reach("done")
}

// SkipsForms checks every family with every body length, whole and cut anywhere.
//
//sv:harness prop=C15
//sv:bound every lead byte of a family without nesting, with every header and a body of up to 70000 bytes, cut at any byte or whole; alone or inside an array or map
func SkipsForms() {
	lead := sv.U8("lead")
	sv.Assume(lead < 0x80 || lead >= 0xa0)
	sv.Assume(lead < 0xdc || lead >= 0xe0)
	hdr := sv.BytesN("hdr", 6)
	hdr[0] = lead
	h, body, _, ok := head(hdr)
	sv.Assume(ok && body <= maxText)
	n := h + sv.Conc(0) + int(body)
	v := make([]byte, n)
	copy(v, hdr[:h])
	var pre []byte
	var post []byte
	switch sv.Choose("in", 4) {
	case 1:
		pre = []byte{0x91}
	case 2:
		pre, post = []byte{0x81, 0x01}, nil
	case 3:
		pre, post = []byte{0x92}, []byte{0xc0}
	}
	whole := append(append(append([]byte{}, pre...), v...), post...)
	if sv.Bool("whole") {
		d := msgpack.NewDecoder(marked(whole))
		sv.Assert(d.Skip() == nil, "refused")
		atMark(&d, "consumed")
		sv.Reach("whole")
		return
	}
	cut := sv.IntRange("cut", 0, maxText+16)
	sv.Assume(cut < len(whole))
	d := msgpack.NewDecoder(whole[:cut])
	sv.Assert(d.Skip() != nil, "accepted")
	sv.Reach("cut")
}

// SkipsCounts checks collections with every kind of header.
//
//sv:harness prop=C15
//sv:bound arrays and maps of 0 to 2 elements (3 in the thorough tier) with every form of header and any single-byte elements, whole or with the last byte missing; nested once; counts up to 2^32-1 that the input cannot hold
func SkipsCounts() {
	forms := []struct {
		c byte
		n int
		m int
	}{{0x90, 0, 1}, {0xdc, 2, 1}, {0xdd, 4, 1}, {0x80, 0, 2}, {0xde, 2, 2}, {0xdf, 4, 2}}
	f := forms[sv.Choose("form", len(forms))]
	max := 3
	if sv.Deep() {
		max = 4
	}
	n := sv.Choose("n", max)
	var b []byte
	if f.n == 0 {
		b = []byte{f.c | byte(n)}
	} else {
		b = app([]byte{f.c}, uint64(n), f.n)
	}
	for i := 0; i < n*f.m; i++ {
		e := sv.U8("e")
		sv.Assume(sv.Or(e < 0x80, sv.Or(e >= 0xe0, sv.Or(e == 0xc0, sv.Or(e == 0xc2, e == 0xc3)))))
		b = append(b, e)
	}
	if sv.Bool("nest") {
		b = append([]byte{0x81, 0xc3}, b...)
	}
	switch sv.Choose("cut", 3) {
	case 0:
		d := msgpack.NewDecoder(marked(b))
		sv.Assert(d.Skip() == nil, "refused")
		atMark(&d, "consumed")
		sv.Reach("whole")
	case 1:
		d := msgpack.NewDecoder(b[:len(b)-1])
		sv.Assert(d.Skip() != nil, "accepted")
		sv.Reach("cut")
	case 2:
		big := sv.U32("big")
		sv.Assume(big > 3)
		if f.n == 2 {
			sv.Assume(big < 65536)
		}
		if f.n > 0 {
			c := app([]byte{f.c}, uint64(big), f.n)
			c = append(c, 1, 2, 3)
			d := msgpack.NewDecoder(c)
			sv.Assert(d.Skip() != nil, "count-accepted")
			sv.Reach("count")
		}
	}
}
