// Package msgp states the MessagePack properties of msgpack, msgpack/convert and transform.
package msgp

import (
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/msgpack"
)

func be(b []byte, n int) uint64 {
	var v uint64
	for i := 0; i < n; i++ {
		v = v<<8 | uint64(b[i])
	}
	return v
}

// app appends v as n big-endian bytes.
func app(b []byte, v uint64, n int) []byte {
	for i := n - 1; i >= 0; i-- {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

// refInt is the shortest form of v in the signed family.
func refInt(v int64) []byte {
	switch {
	case v >= -32 && v < 128:
		return []byte{byte(v)}
	case v >= -128 && v < 128:
		return []byte{0xd0, byte(v)}
	case v >= -32768 && v < 32768:
		return app([]byte{0xd1}, uint64(v), 2)
	case v >= -1<<31 && v < 1<<31:
		return app([]byte{0xd2}, uint64(v), 4)
	}
	return app([]byte{0xd3}, uint64(v), 8)
}

// refUint is the shortest form of v in the unsigned family.
func refUint(v uint64) []byte {
	switch {
	case v < 128:
		return []byte{byte(v)}
	case v < 256:
		return []byte{0xcc, byte(v)}
	case v < 65536:
		return app([]byte{0xcd}, v, 2)
	case v < 1<<32:
		return app([]byte{0xce}, v, 4)
	}
	return app([]byte{0xcf}, v, 8)
}

// refLen is the shortest header for length n; a negative code means the family lacks the form.
func refLen(n uint64, fix byte, fixMax uint64, c8, c16, c32 int) []byte {
	switch {
	case fixMax > 0 && n < fixMax:
		return []byte{fix | byte(n)}
	case c8 >= 0 && n < 256:
		return []byte{byte(c8), byte(n)}
	case n < 65536:
		return app([]byte{byte(c16)}, n, 2)
	}
	return app([]byte{byte(c32)}, n, 4)
}

func refStrHdr(n uint64) []byte { return refLen(n, 0xa0, 32, 0xd9, 0xda, 0xdb) }
func refBinHdr(n uint64) []byte { return refLen(n, 0, 0, 0xc4, 0xc5, 0xc6) }
func refArrHdr(n uint64) []byte { return refLen(n, 0x90, 16, -1, 0xdc, 0xdd) }
func refMapHdr(n uint64) []byte { return refLen(n, 0x80, 16, -1, 0xde, 0xdf) }

// head describes the first object of b by the MessagePack specification: the length of its head, the
// bytes of body after the head, and the objects nested in it. ok is false if the head is cut or invalid.
func head(b []byte) (hdr int, body, nested uint64, ok bool) {
	if len(b) == 0 {
		return 0, 0, 0, false
	}
	c := b[0]
	field := func(n int) (uint64, bool) {
		if len(b) < 1+n {
			return 0, false
		}
		return be(b[1:], n), true
	}
	switch {
	case c < 0x80 || c >= 0xe0 || c == 0xc0 || c == 0xc2 || c == 0xc3:
		return 1, 0, 0, true
	case c < 0x90:
		return 1, 0, 2 * uint64(c&15), true
	case c < 0xa0:
		return 1, 0, uint64(c & 15), true
	case c < 0xc0:
		return 1, uint64(c & 31), 0, true
	case c == 0xc1:
		return 0, 0, 0, false
	case c >= 0xc4 && c <= 0xc6:
		n := 1 << (c - 0xc4)
		l, k := field(n)
		return 1 + n, l, 0, k
	case c >= 0xc7 && c <= 0xc9:
		n := 1 << (c - 0xc7)
		l, k := field(n)
		return 1 + n + 1, l, 0, k && len(b) >= n+2
	case c == 0xca:
		return 1, 4, 0, true
	case c == 0xcb:
		return 1, 8, 0, true
	case c >= 0xcc && c <= 0xcf:
		return 1, 1 << (c - 0xcc), 0, true
	case c >= 0xd0 && c <= 0xd3:
		return 1, 1 << (c - 0xd0), 0, true
	case c >= 0xd4 && c <= 0xd8:
		return 2, 1 << (c - 0xd4), 0, len(b) >= 2
	case c >= 0xd9 && c <= 0xdb:
		n := 1 << (c - 0xd9)
		l, k := field(n)
		return 1 + n, l, 0, k
	case c == 0xdc || c == 0xdd:
		n := 2 << (c - 0xdc)
		l, k := field(n)
		return 1 + n, 0, l, k
	}
	n := 2 << (c - 0xde)
	l, k := field(n)
	return 1 + n, 0, 2 * l, k
}

// extent is the length of the first value of b, or -1 if it is cut or invalid.
func extent(b []byte) int {
	at := 0
	for todo := uint64(1); todo > 0; todo-- {
		h, body, nested, ok := head(b[at:])
		if !ok || uint64(len(b)-at-h) < body {
			return -1
		}
		at += h + int(body)
		todo += nested
		if todo > uint64(len(b)-at)+1 {
			return -1 // more objects to come than bytes left
		}
	}
	return at
}

const mark = 0x1122334455667788

// marked appends a recognisable value to b.
func marked(b []byte) []byte {
	out := make([]byte, len(b)+9)
	copy(out, b)
	copy(out[len(b):], []byte{0xcf, 0x11, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x88})
	return out
}

// atMark asserts that d is exactly at the mark, the last value of its input.
func atMark(d *msgpack.Decoder, label string) {
	v, err := d.ReadUint64()
	sv.Assert(err == nil && v == mark, label)
	_, err = d.IsNextNil()
	sv.Assert(err != nil, label+"-end")
}

// exact writes with f after sizing with f; it asserts that the size is exact and returns the bytes.
func exact(f func(w msgpack.Writer), label string) []byte {
	s := msgpack.NewSizer()
	f(&s)
	sv.Assert(s.Err() == nil, label+"-sizer-err")
	n := int(s.Len())
	sv.Assert(n > 0, label+"-sizer-empty")
	buf := make([]byte, n)
	e := msgpack.NewEncoder(buf)
	f(&e)
	sv.Assert(e.Err() == nil, label+"-size-small")
	short := make([]byte, n-1)
	e2 := msgpack.NewEncoder(short)
	f(&e2)
	sv.Assert(e2.Err() != nil, label+"-size-large")
	return buf
}
