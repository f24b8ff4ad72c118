package msgp

import (
	"errors"

	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/msgpack"
)

var errElem = errors.New("element")

// Lists round-trips lists written with the helpers.
//
//sv:harness prop=C18
//sv:bound lists of 0 to 3 arbitrary integers or short strings, and of 0, 15, 16 and 17 elements (65536 in the thorough tier)
func Lists() {
	if sv.Bool("text") {
		v := []string{}
		for i := sv.Choose("n", 4); i > 0; i-- {
			v = append(v, sv.String("s", 3))
		}
		b, err := msgpack.SliceToBytes(v, msgpack.Writer.WriteString)
		sv.Assert(err == nil && extent(b) == len(b), "text-write")
		d := msgpack.NewDecoder(marked(b))
		got, err := msgpack.ReadSlice(&d, msgpack.Reader.ReadString)
		sv.Assert(err == nil && len(got) == len(v), "text-read")
		for i := range v {
			sv.SameString(got[i], v[i], "text-elem")
		}
		atMark(&d, "text-consumed")
		sv.Reach("text")
		return
	}
	sizes := []int{0, 1, 2, 3, 15, 16, 17, 65536}
	ns := 7
	if sv.Deep() {
		ns = 8
	}
	n := sizes[sv.Choose("n", ns)]
	v := make([]int64, n)
	for i := range v {
		if i < 3 {
			v[i] = sv.I64("v")
		} else {
			v[i] = int64(i & 63)
		}
	}
	b, err := msgpack.SliceToBytes(v, msgpack.Writer.WriteInt64)
	sv.Assert(err == nil && extent(b) == len(b), "write")
	h := refArrHdr(uint64(n))
	sv.SameBytes(b[:len(h)], h, "header")
	d := msgpack.NewDecoder(marked(b))
	got, err := msgpack.ReadSlice(&d, msgpack.Reader.ReadInt64)
	sv.Assert(err == nil && len(got) == n, "read")
	for i := range v {
		sv.Assert(got[i] == v[i], "elem")
	}
	atMark(&d, "consumed")
	sv.Reach("ints")
}

// Maps round-trips maps written with the helpers.
//
//sv:harness prop=C18
//sv:bound maps of 0 to 2 arbitrary integer keys and values, and of 15 to 17 fixed keys; any iteration order for up to 3 keys
func Maps() {
	n := []int{0, 1, 2, 15, 16, 17}[sv.Choose("n", 6)]
	keys := make([]uint32, n)
	m := map[uint32]int64{}
	for i := range keys {
		keys[i] = uint32(i)
		if i < 2 {
			keys[i] = sv.U32("k")
			sv.Assume(n <= 2 || keys[i] >= 100)
			sv.Assume(i == 0 || keys[0] != keys[1])
		}
		m[keys[i]] = int64(i)
		if i < 2 {
			m[keys[i]] = sv.I64("v")
		}
	}
	b, err := msgpack.MapToBytes(m, msgpack.Writer.WriteUint32, msgpack.Writer.WriteInt64)
	sv.Assert(err == nil && extent(b) == len(b), "write")
	h := refMapHdr(uint64(n))
	sv.SameBytes(b[:len(h)], h, "header")
	d := msgpack.NewDecoder(marked(b))
	got, err := msgpack.ReadMap(&d, msgpack.Reader.ReadUint32, msgpack.Reader.ReadInt64)
	sv.Assert(err == nil && len(got) == n, "read")
	for i := range keys {
		x, ok := got[keys[i]]
		sv.Assert(ok && x == m[keys[i]], "elem")
	}
	atMark(&d, "consumed")
	sv.Reach("done")
}

// ListErrors checks that a failing element fails the whole read at once.
//
//sv:harness prop=C18
//sv:bound lists and maps of 1 to 4 elements, the failing element, and whether it is a key or a value
func ListErrors() {
	n := 1 + sv.Choose("n", 4)
	at := sv.Choose("at", 4)
	sv.Assume(at < n)
	b := []byte{0x90 | byte(n)}
	calls := 0
	elem := func(r msgpack.Reader) (uint8, error) {
		v, err := r.ReadUint8()
		sv.Assert(err == nil && int(v) == calls, "elem")
		calls++
		if calls-1 == at {
			return 77, errElem
		}
		return v, nil
	}
	if sv.Bool("map") {
		b[0] = 0x80 | byte(n)
		key := sv.Bool("key")
		for i := 0; i < n; i++ {
			b = append(b, byte(i), byte(i))
		}
		other := msgpack.Reader.ReadUint8
		d := msgpack.NewDecoder(b)
		var m map[uint8]uint8
		var err error
		if key {
			m, err = msgpack.ReadMap(&d, elem, other)
		} else {
			m, err = msgpack.ReadMap(&d, other, elem)
		}
		sv.Assert(errors.Is(err, errElem), "map-error")
		sv.Assert(m == nil, "map-partial")
		sv.Assert(calls == at+1, "map-continues")
		sv.Reach("map")
		return
	}
	for i := 0; i < n; i++ {
		b = append(b, byte(i))
	}
	d := msgpack.NewDecoder(b)
	l, err := msgpack.ReadSlice(&d, elem)
	sv.Assert(errors.Is(err, errElem), "list-error")
	sv.Assert(l == nil, "list-partial")
	sv.Assert(calls == at+1, "list-continues")
	sv.Reach("list")
}

// ListWriteErrors checks that running out of space while writing is reported.
//
//sv:harness prop=C18
//sv:bound lists and maps of 0 to 2 elements of any integers, any buffer size up to 40 bytes
func ListWriteErrors() {
	n := sv.Choose("n", 3)
	l := make([]int64, n)
	m := map[uint16]int64{}
	for i := range l {
		l[i] = sv.I64("v")
		m[uint16(i)] = l[i]
	}
	isMap := sv.Bool("map")
	write := func(w msgpack.Writer) error {
		if isMap {
			return msgpack.WriteMap(w, m, msgpack.Writer.WriteUint16, msgpack.Writer.WriteInt64)
		}
		return msgpack.WriteSlice(w, l, msgpack.Writer.WriteInt64)
	}
	s := msgpack.NewSizer()
	sv.Assert(write(&s) == nil, "sizer")
	size := sv.IntRange("size", 0, 40)
	buf := make([]byte, 40)
	e := msgpack.NewEncoder(buf[:size])
	err := write(&e)
	sv.Assert((err != nil) == (int(s.Len()) > size), "report")
	sv.Reach("done")
}

// ListCut reads lists and maps cut short.
//
//sv:harness prop=C18
//sv:bound a list or map of up to 2 elements of any integers, cut at any byte
func ListCut() {
	n := sv.Choose("n", 3)
	l := make([]int64, n)
	m := map[uint16]int64{}
	for i := range l {
		l[i] = sv.I64("v")
		m[uint16(i)] = l[i]
	}
	var b []byte
	isMap := sv.Bool("map")
	if isMap {
		b, _ = msgpack.MapToBytes(m, msgpack.Writer.WriteUint16, msgpack.Writer.WriteInt64)
	} else {
		b, _ = msgpack.SliceToBytes(l, msgpack.Writer.WriteInt64)
	}
	cut := sv.IntRange("cut", 0, 40)
	sv.Assume(cut < len(b))
	d := msgpack.NewDecoder(b[:cut])
	var err error
	if isMap {
		_, err = msgpack.ReadMap(&d, msgpack.Reader.ReadUint16, msgpack.Reader.ReadInt64)
	} else {
		_, err = msgpack.ReadSlice(&d, msgpack.Reader.ReadInt64)
	}
	sv.Assert(errors.Is(err, msgpack.ErrRange), "cut-accepted")
	sv.Reach("done")
}

// ListGrows encodes elements that grow between being sized and being written.
//
//sv:harness prop=C18
//sv:bound a list or a map of one or two elements
func ListGrows() {
	var b []byte
	var err error
	if sv.Bool("map") {
		b, err = msgpack.MapToBytes(map[uint16]int8{1: 2}, msgpack.Writer.WriteUint16, growing())
	} else {
		b, err = msgpack.SliceToBytes(make([]int8, 1+sv.Choose("n", 2)), growing())
	}
	sv.Assert(err != nil && b == nil, "silent")
	sv.Reach("done")
}

// ListNil reads nil where a list or map is expected.
//
//sv:harness prop=C18
//sv:bound nil read as list and as map
func ListNil() {
	d := msgpack.NewDecoder(marked([]byte{0xc0}))
	if sv.Bool("map") {
		m, err := msgpack.ReadMap(&d, msgpack.Reader.ReadUint16, msgpack.Reader.ReadInt64)
		sv.Assert(err == nil && len(m) == 0, "map")
	} else {
		l, err := msgpack.ReadSlice(&d, msgpack.Reader.ReadInt64)
		sv.Assert(err == nil && len(l) == 0, "list")
	}
	atMark(&d, "consumed")
	sv.Reach("done")
}
