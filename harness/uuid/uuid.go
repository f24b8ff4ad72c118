// Package uuid states the properties of UUIDs.
package uuid

import (
	"errors"
	"io"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/types/uuid"
)

const digits = "0123456789abcdef"

func draw(name string) (u uuid.UUID) {
	copy(u[:], sv.BytesN(name, 16))
	return
}

// digit is the lowercase hexadecimal digit of v.
func digit(v byte) byte {
	return byte(sv.Ite(v < 10, '0'+uint64(v), 'a'-10+uint64(v)))
}

// text is the canonical text of u.
func text(u uuid.UUID) []byte {
	var b []byte
	for i, x := range u {
		if i == 4 || i == 6 || i == 8 || i == 10 {
			b = append(b, '-')
		}
		b = append(b, digit(x>>4), digit(x&15))
	}
	return b
}

// cased is b with the letters of its digits from the given one on in upper case.
func cased(b []byte, any bool) string {
	c := append([]byte{}, b...)
	for i := range c {
		up := sv.And(any, sv.And('a' <= c[i], c[i] <= 'f'))
		if i%5 == 2 {
			up = sv.And(up, false)
		}
		c[i] = byte(sv.Ite(up, uint64(c[i])-32, uint64(c[i])))
	}
	return string(c)
}

func same(a, b uuid.UUID, label string) { sv.SameBytes(a[:], b[:], label) }

// Forms writes a UUID and reads it back.
//
//sv:harness prop=C60 time=60
//sv:bound every UUID; every form, with all letters in lower case or in upper case but for every fifth
func Forms() {
	u := draw("u")
	want := text(u)
	up := sv.Bool("upper")
	read := func(s string) {
		v, err := uuid.Parse(s)
		sv.Assert(err == nil, "parse")
		same(v, u, "parse")
		v, err = uuid.ParseBytes([]byte(s))
		sv.Assert(err == nil, "parse-bytes")
		same(v, u, "parse-bytes")
		var w uuid.UUID
		sv.Assert(w.UnmarshalText([]byte(s)) == nil, "unmarshal")
		same(w, u, "unmarshal")
		same(uuid.MustParse(s), u, "must")
	}
	switch sv.Choose("form", 5) {
	case 0:
		s := u.String()
		sv.SameString(s, string(want), "text")
		b, err := u.MarshalText()
		sv.Assert(err == nil, "marshal")
		sv.SameBytes(b, want, "marshal")
		read(cased(want, up))
	case 1:
		s := u.URN()
		sv.SameString(s, "urn:uuid:"+string(want), "urn")
		p := "urn:uuid:"
		if up {
			p = "URN:uuId:"
		}
		read(p + cased(want, up))
	case 2:
		read("{" + cased(want, up) + "}")
	case 3:
		var raw []byte
		for _, x := range u {
			raw = append(raw, digit(x>>4), digit(x&15))
		}
		read(cased(raw, up))
	case 4:
		b, err := u.MarshalBinary()
		sv.Assert(err == nil, "binary")
		sv.SameBytes(b, append([]byte{}, u[:]...), "binary")
		v, err := uuid.FromBytes(b)
		sv.Assert(err == nil, "from")
		same(v, u, "from")
		var w uuid.UUID
		sv.Assert(w.UnmarshalBinary(b) == nil, "from-binary")
		same(w, u, "from-binary")
	}
	sv.Reach("form")
}

// value is what the digit c stands for, if it is one.
func value(c byte) (byte, bool) {
	dec := sv.And('0' <= c, c <= '9')
	low := sv.And('a' <= c, c <= 'f')
	up := sv.And('A' <= c, c <= 'F')
	v := sv.Ite(dec, uint64(c)-'0', sv.Ite(low, uint64(c)-'a'+10, uint64(c)-'A'+10))
	return byte(v), sv.Or(dec, sv.Or(low, up))
}

// parse parses s in every way and compares with what it spells.
func parse(s []byte, body int, hyphens, ok bool) {
	var want uuid.UUID
	at := body
	for i := range want {
		if hyphens && (i == 4 || i == 6 || i == 8 || i == 10) {
			ok = sv.And(ok, s[at] == '-')
			at++
		}
		hi, a := value(s[at])
		lo, b := value(s[at+1])
		ok = sv.And(ok, sv.And(a, b))
		want[i] = hi<<4 | lo
		at += 2
	}
	got, err := uuid.Parse(string(s))
	sv.Assert((err == nil) == ok, "parse")
	if err == nil {
		same(got, want, "parse")
		sv.Reach("parsed")
	} else {
		sv.Reach("rejected")
	}
	b, berr := uuid.ParseBytes(append([]byte{}, s...))
	sv.Assert((err == nil) == (berr == nil), "bytes")
	if berr == nil {
		same(b, want, "bytes")
	}
	was := uuid.UUID{1, 2, 3}
	w := was
	merr := w.UnmarshalText(s)
	sv.Assert((err == nil) == (merr == nil), "unmarshal")
	if merr != nil {
		same(w, was, "unmarshal-touched")
	}
}

// ParseText parses arbitrary text.
//
//sv:harness prop=C61 time=60
//sv:bound 36 arbitrary bytes
func ParseText() { parse(sv.BytesN("s", 36), 0, true, true) }

// ParseHex parses arbitrary hexadecimal digits.
//
//sv:harness prop=C61 time=60
//sv:bound 32 arbitrary bytes
func ParseHex() { parse(sv.BytesN("s", 32), 0, false, true) }

// ParseBraces parses arbitrary text within two bytes.
//
//sv:harness prop=C61 time=60
//sv:bound 38 arbitrary bytes (the first and the last one do not matter, as documented upstream)
func ParseBraces() { parse(sv.BytesN("s", 38), 1, true, true) }

// ParseURN parses arbitrary text after a prefix.
//
//sv:harness prop=C61 time=60
//sv:bound any 36 bytes after the prefix in lower or upper case; or a UUID after a prefix of which any one byte is arbitrary
func ParseURN() {
	p := []byte("urn:uuid:")
	if sv.Bool("upper") {
		p = []byte("URN:UUID:")
	}
	if sv.Bool("body") {
		parse(append(p, sv.BytesN("s", 36)...), 9, true, true)
		return
	}
	c := sv.U8("c")
	i := sv.Choose("at", 9)
	ok := sv.Or(c == p[i], sv.And('A' <= p[i]&^32, c^32 == p[i]))
	p[i] = c
	parse(append(p, "01234567-89ab-cdef-0123-456789abcdef"...), 9, true, ok)
}

// ParseLength parses text of another length.
//
//sv:harness prop=C61 time=60
//sv:bound any text of up to 50 bytes of any other length; and binary forms of up to 20 bytes
func ParseLength() {
	n := sv.Choose("n", 51)
	sv.Assume(n != 32 && n != 36 && n != 38 && n != 45)
	s := sv.BytesN("s", n)
	_, err := uuid.Parse(string(s))
	sv.Assert(uuid.IsInvalidLengthError(err), "length")
	_, err = uuid.ParseBytes(s)
	sv.Assert(uuid.IsInvalidLengthError(err), "length-bytes")
	was := uuid.UUID{1, 2, 3}
	w := was
	sv.Assert(w.UnmarshalText(s) != nil, "unmarshal")
	same(w, was, "unmarshal-touched")
	if n <= 20 {
		sv.Assert((w.UnmarshalBinary(s) == nil) == (n == 16), "binary")
		_, err = uuid.FromBytes(s)
		sv.Assert((err == nil) == (n == 16), "from")
		if n != 16 {
			same(w, was, "binary-touched")
		}
	}
	sv.Reach("length")
}

var errRandom = errors.New("no randomness")

// random hands out bytes in chunks and may fail.
type random struct {
	b     []byte
	chunk int
	fail  int // bytes before it fails once, if positive
	out   int
}

func (r *random) Read(p []byte) (int, error) {
	if r.fail > 0 && r.out >= r.fail {
		r.fail = 0
		return 0, errRandom
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	if r.fail > 0 && r.out+n > r.fail {
		n = r.fail - r.out
	}
	if n > len(r.b)-r.out {
		n = len(r.b) - r.out
		if n == 0 {
			return 0, io.EOF
		}
	}
	copy(p, r.b[r.out:r.out+n])
	r.out += n
	return n, nil
}

// version4 checks that u is made of the random bytes b.
func version4(u uuid.UUID, b []byte, label string) {
	sv.Assert(u.Version() == 4 && u.Variant() == uuid.RFC4122, label+"-version")
	w := append([]byte{}, b[:16]...)
	w[6] = w[6]&0x0f | 0x40
	w[8] = w[8]&0x3f | 0x80
	sv.SameBytes(u[:], w, label)
}

// Random draws a UUID from a source.
//
//sv:harness prop=C62 time=60
//sv:bound any random bytes handed out in chunks of any size, with the source failing or ending after any number of bytes
func Random() {
	r := &random{b: sv.BytesN("random", 32), chunk: sv.Choose("chunk", 17)}
	short := sv.Bool("short")
	if sv.Bool("fails") {
		r.fail = 1 + sv.Choose("after", 16)
	} else if short {
		r.b = r.b[:sv.Choose("length", 17)]
	}
	src := r.b
	var u uuid.UUID
	var err error
	whole := len(src) >= 16 && (r.fail == 0 || r.fail >= 16)
	switch sv.Choose("how", 2) {
	case 0:
		u, err = uuid.NewRandomFromReader(r)
	case 1:
		uuid.SetRand(r)
		u, err = uuid.NewRandom()
		uuid.SetRand(nil)
	}
	sv.Assert((err == nil) == whole, "error")
	if err != nil {
		sv.Assert(u == uuid.UUID{}, "zero")
		sv.Reach("failed")
		return
	}
	version4(u, src, "random")
	sv.Reach("random")
}

// Pool draws UUIDs with the pool.
//
//sv:harness prop=C62 time=60
//sv:bound 18 UUIDs (34 in the thorough tier) drawn with the pool, which is switched off and on again or not at any point, from a source of arbitrary bytes handed out in whole or in chunks of 100 that fails not at all, once after 100 bytes or once after the first refill
func Pool() {
	n := 18
	if sv.Deep() {
		n = 34
	}
	r := &random{b: sv.BytesN("random", 2048)}
	if sv.Bool("chunks") {
		r.chunk = 100
	}
	r.fail = []int{0, 100, 256}[sv.Choose("fail", 3)]
	uuid.SetRand(r)
	uuid.EnableRandPool()
	off := sv.Choose("off", n+1)
	next := 0 // where in the source the next UUID comes from unless more is read first
	draw := func(label string) {
		before, failing := r.out, r.fail > 0
		u, err := uuid.NewRandom()
		if err != nil {
			sv.Assert(failing && r.fail == 0, "error")
			sv.Assert(u == uuid.UUID{}, "zero")
			sv.Reach("failed")
			return
		}
		sv.Assert(!failing || r.fail != 0, "failure-lost")
		if r.out != before {
			next = before
		}
		version4(u, r.b[next:], label)
		next += 16
	}
	for i := 0; i < n; i++ {
		if i == off {
			uuid.DisableRandPool()
			if sv.Bool("draw") {
				draw("single")
			}
			uuid.EnableRandPool()
		}
		draw("pooled")
		sv.Assert(next <= r.out, "beyond")
	}
	sv.Reach("pool")
}

// PoolAtOnce draws UUIDs from two goroutines.
//
//sv:harness prop=C62 sched=1 preempt=2 dpreempt=3 time=60
//sv:bound two goroutines drawing 2 UUIDs each from the pool, of which 13 to 16 have been drawn before; interleavings with up to 2 preemptions (3 in the thorough tier) at synchronisation points; data races included
func PoolAtOnce() {
	sv.Races()
	b := make([]byte, 1024)
	for i := range b {
		b[i] = byte(i / 16)
	}
	uuid.SetRand(&random{b: b})
	uuid.EnableRandPool()
	var seen [64]bool
	take := func() byte {
		u, err := uuid.NewRandom()
		sv.Assert(err == nil, "error")
		version4(u, b[16*int(u[0]):], "pooled")
		return u[0]
	}
	for i := 13 + sv.Choose("before", 4); i > 0; i-- {
		seen[take()] = true
	}
	got := make(chan [2]byte, 2)
	for g := 0; g < 2; g++ {
		go func() { got <- [2]byte{take(), take()} }()
	}
	for g := 0; g < 2; g++ {
		for _, k := range <-got {
			sv.Assert(!seen[k], "twice")
			seen[k] = true
		}
	}
	sv.Reach("done")
}

const gregorian = 122192928000000000 // 15 October 1582 to 1 January 1970 in 100 ns

// Fields reads the fields of a UUID made from a time and a clock sequence.
//
//sv:harness prop=C63
//sv:bound every 60-bit time, 14-bit clock sequence, version and node
func Fields() {
	t, seq := sv.U64("t"), sv.U16("seq")
	sv.Assume(t < 1<<60 && seq < 1<<14)
	u := draw("u")
	v := u[6] >> 4
	u[0], u[1], u[2], u[3] = byte(t>>24), byte(t>>16), byte(t>>8), byte(t)
	u[4], u[5] = byte(t>>40), byte(t>>32)
	u[6], u[7] = v<<4|byte(t>>56), byte(t>>48)
	u[8], u[9] = 0x80|byte(seq>>8), byte(seq)
	sv.Assert(uint64(u.Time()) == t, "time")
	sv.Assert(u.ClockSequence() == int(seq), "sequence")
	sv.Assert(u.Version() == uuid.Version(v), "version")
	sv.Assert(u.Variant() == uuid.RFC4122, "variant")
	sv.Reach("fields")
}

// Variants classifies UUIDs.
//
//sv:harness prop=C63
//sv:bound every UUID
func Variants() {
	u := draw("u")
	b := u[8]
	want := uuid.Reserved
	switch {
	case b>>6 == 2:
		want = uuid.RFC4122
	case b>>5 == 6:
		want = uuid.Microsoft
	case b>>5 == 7:
		want = uuid.Future
	}
	sv.Assert(u.Variant() == want, "variant")
	sv.Assert(byte(u.Version()) == u[6]>>4, "version")
	sv.Reach("variant")
}

// Unix converts times.
//
//sv:harness prop=C63 time=60
//sv:bound every 60-bit time
func Unix() {
	// every time lies s seconds and f ticks after or before 1970
	f := sv.IntRange("f", 0, 9999999)
	s, sign := 0, 1
	if sv.Bool("past") {
		s, sign = sv.IntRange("s", 0, gregorian/10000000), -1
		sv.Assume(s*10000000+f <= gregorian)
	} else {
		s = sv.IntRange("s", 0, (1<<60-gregorian)/10000000)
		sv.Assume(s*10000000+f < 1<<60-gregorian)
	}
	sec, ns := uuid.Time(gregorian + sign*(s*10000000+f)).UnixTime()
	sv.Assert(int(sec) == sign*s, "seconds")
	sv.Assert(int(ns) == sign*f*100, "nanoseconds")
	sv.Reach("unix")
}

// ClockSequence reads the time and sets the clock sequence.
//
//sv:harness prop=C63 time=60
//sv:bound 3 steps (4 in the thorough tier): reading the time, the clock showing any time from 1970 to 2200, or setting the clock sequence to anything or to a random value
func ClockSequence() {
	r := &random{b: sv.BytesN("random", 64)}
	uuid.SetRand(r)
	var now int64 // in 100 ns since 1970
	uuid.VerifClock = func() time.Time { return time.Unix(now/10000000, now%10000000*100) }
	n := 3
	if sv.Deep() {
		n = 4
	}
	seq := -1 // unknown
	last, fresh := uint64(0), false
	for i := 0; i < n; i++ {
		switch sv.Choose("op", 3) {
		case 0:
			s := sv.U32("sec")
			f := sv.U32("fraction")
			sv.Assume(f < 10000000)
			uuid.VerifClock = func() time.Time { return time.Unix(int64(s), int64(f)*100+99) }
			t, got, err := uuid.GetTime()
			sv.Assert(err == nil, "error")
			sv.Assert(uint64(t) == uint64(s)*10000000+uint64(f)+gregorian, "time")
			sv.Assert(got>>14 == 2, "variant-bits")
			if fresh && seq >= 0 {
				if uint64(t) <= last {
					sv.Assert(int(got&0x3fff) != seq, "unchanged")
					sv.Reach("stalled")
				} else {
					sv.Assert(int(got&0x3fff) == seq, "changed")
				}
			}
			if !fresh && seq >= 0 {
				sv.Reach("set")
			}
			seq, last, fresh = int(got&0x3fff), uint64(t), true
		case 1:
			v := sv.Int("seq")
			sv.Assume(v != -1)
			uuid.SetClockSequence(v)
			if v&0x3fff != seq {
				fresh = false
			}
			seq = v & 0x3fff
		case 2:
			at := r.out
			uuid.SetClockSequence(-1)
			sv.Assert(r.out == at+2, "random")
			v := (int(r.b[at])<<8 | int(r.b[at+1])) & 0x3fff
			if v != seq {
				fresh = false
			}
			seq = v
		}
		got := uuid.ClockSequence()
		sv.Assert(got>>14 == 0, "range")
		sv.Assert(seq < 0 || got == seq, "observable")
		seq = got
	}
	sv.Reach("done")
}
