package msgp

import (
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/msgpack"
)

func signedFits(v int64, w int) bool {
	switch w {
	case 0:
		return v >= -128 && v < 128
	case 1:
		return v >= -32768 && v < 32768
	case 2:
		return v >= -1<<31 && v < 1<<31
	}
	return true
}

func unsignedFits(v uint64, w int) bool {
	switch w {
	case 0:
		return v < 1<<8
	case 1:
		return v < 1<<16
	case 2:
		return v < 1<<32
	}
	return true
}

func writeInt(e msgpack.Writer, w int, v int64) {
	switch w {
	case 0:
		e.WriteInt8(int8(v))
	case 1:
		e.WriteInt16(int16(v))
	case 2:
		e.WriteInt32(int32(v))
	case 3:
		e.WriteInt64(v)
	case 4:
		x := int8(v)
		e.WriteNillableInt8(&x)
	case 5:
		x := int16(v)
		e.WriteNillableInt16(&x)
	case 6:
		x := int32(v)
		e.WriteNillableInt32(&x)
	case 7:
		e.WriteNillableInt64(&v)
	}
}

func writeUint(e msgpack.Writer, w int, v uint64) {
	switch w {
	case 0:
		e.WriteUint8(uint8(v))
	case 1:
		e.WriteUint16(uint16(v))
	case 2:
		e.WriteUint32(uint32(v))
	case 3:
		e.WriteUint64(v)
	case 4:
		x := uint8(v)
		e.WriteNillableUint8(&x)
	case 5:
		x := uint16(v)
		e.WriteNillableUint16(&x)
	case 6:
		x := uint32(v)
		e.WriteNillableUint32(&x)
	case 7:
		e.WriteNillableUint64(&v)
	}
}

func anyInt(w int, v int64) any {
	switch w {
	case 0:
		return int8(v)
	case 1:
		return int16(v)
	case 2:
		return int32(v)
	case 3:
		return v
	}
	return int(v)
}

func anyUint(w int, v uint64) any {
	switch w {
	case 0:
		return uint8(v)
	case 1:
		return uint16(v)
	case 2:
		return uint32(v)
	case 3:
		return v
	}
	return uint(v)
}

func readInt(d msgpack.Reader, r int) (int64, bool, error) {
	switch r {
	case 0:
		v, err := d.ReadInt8()
		return int64(v), true, err
	case 1:
		v, err := d.ReadInt16()
		return int64(v), true, err
	case 2:
		v, err := d.ReadInt32()
		return int64(v), true, err
	case 3:
		v, err := d.ReadInt64()
		return v, true, err
	case 4:
		v, err := d.ReadNillableInt8()
		if v == nil {
			return 0, false, err
		}
		return int64(*v), true, err
	case 5:
		v, err := d.ReadNillableInt16()
		if v == nil {
			return 0, false, err
		}
		return int64(*v), true, err
	case 6:
		v, err := d.ReadNillableInt32()
		if v == nil {
			return 0, false, err
		}
		return int64(*v), true, err
	}
	v, err := d.ReadNillableInt64()
	if v == nil {
		return 0, false, err
	}
	return *v, true, err
}

func readUint(d msgpack.Reader, r int) (uint64, bool, error) {
	switch r {
	case 0:
		v, err := d.ReadUint8()
		return uint64(v), true, err
	case 1:
		v, err := d.ReadUint16()
		return uint64(v), true, err
	case 2:
		v, err := d.ReadUint32()
		return uint64(v), true, err
	case 3:
		v, err := d.ReadUint64()
		return v, true, err
	case 4:
		v, err := d.ReadNillableUint8()
		if v == nil {
			return 0, false, err
		}
		return uint64(*v), true, err
	case 5:
		v, err := d.ReadNillableUint16()
		if v == nil {
			return 0, false, err
		}
		return uint64(*v), true, err
	case 6:
		v, err := d.ReadNillableUint32()
		if v == nil {
			return 0, false, err
		}
		return uint64(*v), true, err
	}
	v, err := d.ReadNillableUint64()
	if v == nil {
		return 0, false, err
	}
	return *v, true, err
}

// Ints writes a signed integer of any width and reads it with a reader of any width.
//
//sv:harness prop=C10
//sv:bound every int64; 8 typed and nillable writers and the generic one, 8 typed and nillable readers
func Ints() {
	v := sv.I64("v")
	w := sv.Choose("writer", 13)
	if w < 12 {
		sv.Assume(signedFits(v, w&3))
	}
	b := exact(func(e msgpack.Writer) {
		if w < 8 {
			writeInt(e, w, v)
		} else {
			e.WriteAny(anyInt(w-8, v))
		}
	}, "write")
	sv.SameBytes(b, refInt(v), "form")
	r := sv.Choose("reader", 8)
	d := msgpack.NewDecoder(marked(b))
	got, present, err := readInt(&d, r)
	if !signedFits(v, r&3) {
		sv.Assert(err != nil, "overflow-accepted")
		sv.Reach("overflow")
		return
	}
	sv.Assert(err == nil && present, "read-err")
	sv.Assert(got == v, "value")
	sv.Observe("n", uint64(got))
	atMark(&d, "consumed")
	sv.Reach("done")
}

// Uints writes an unsigned integer of any width and reads it with a reader of any width.
//
//sv:harness prop=C10
//sv:bound every uint64; 8 typed and nillable writers and the generic one, 8 typed and nillable readers
func Uints() {
	v := sv.U64("v")
	w := sv.Choose("writer", 13)
	if w < 12 {
		sv.Assume(unsignedFits(v, w&3))
	}
	b := exact(func(e msgpack.Writer) {
		if w < 8 {
			writeUint(e, w, v)
		} else {
			e.WriteAny(anyUint(w-8, v))
		}
	}, "write")
	sv.SameBytes(b, refUint(v), "form")
	r := sv.Choose("reader", 8)
	d := msgpack.NewDecoder(marked(b))
	got, present, err := readUint(&d, r)
	if !unsignedFits(v, r&3) {
		sv.Assert(err != nil, "overflow-accepted")
		sv.Reach("overflow")
		return
	}
	sv.Assert(err == nil && present, "read-err")
	sv.Assert(got == v, "value")
	sv.Observe("n", got)
	atMark(&d, "consumed")
	sv.Reach("done")
}

// IntHelpers checks the single-value helpers.
//
//sv:harness prop=C10
//sv:bound every integer of every width
func IntHelpers() {
	v := sv.U64("v")
	var b []byte
	var err error
	k := sv.Choose("helper", 8)
	if k < 4 {
		sv.Assume(signedFits(int64(v), k))
	} else {
		sv.Assume(unsignedFits(v, k&3))
	}
	switch k {
	case 0:
		b, err = msgpack.I8ToBytes(int8(v))
	case 1:
		b, err = msgpack.I16ToBytes(int16(v))
	case 2:
		b, err = msgpack.I32ToBytes(int32(v))
	case 3:
		b, err = msgpack.I64ToBytes(int64(v))
	case 4:
		b, err = msgpack.U8ToBytes(uint8(v))
	case 5:
		b, err = msgpack.U16ToBytes(uint16(v))
	case 6:
		b, err = msgpack.U32ToBytes(uint32(v))
	case 7:
		b, err = msgpack.U64ToBytes(v)
	}
	sv.Assert(err == nil, "err")
	if k < 4 {
		sv.SameBytes(b, refInt(int64(v)), "form")
	} else {
		sv.SameBytes(b, refUint(v), "form")
	}
	sv.Reach("done")
}

// IntForms reads an integer from arbitrary bytes: whatever the form on the wire, the value is the
// one spelled there or the read fails.
//
//sv:harness prop=C10
//sv:bound every input of up to 9 bytes, all 16 readers
func IntForms() {
	b := sv.Bytes("b", 9)
	r := sv.Choose("reader", 16)
	// the value by the specification
	var u uint64
	var neg, ok, sgn bool
	if len(b) > 0 {
		c := b[0]
		switch {
		case c < 0x80:
			u, ok, sgn = uint64(c), true, true
		case c >= 0xe0:
			u, ok, neg, sgn = uint64(int64(int8(c))), true, true, true
		case c >= 0xcc && c <= 0xcf:
			n := 1 << (c - 0xcc)
			if len(b) > n {
				u, ok = be(b[1:], n), true
			}
		case c >= 0xd0 && c <= 0xd3:
			n := 1 << (c - 0xd0)
			if len(b) > n {
				x := int64(be(b[1:], n)<<(64-8*uint(n))) >> (64 - 8*uint(n))
				u, ok, neg, sgn = uint64(x), true, x < 0, true
			}
		}
	}
	d := msgpack.NewDecoder(b)
	if r < 8 {
		got, present, err := readInt(&d, r)
		if err == nil && present {
			sv.Assert(ok && uint64(got) == u && (neg || u < 1<<63), "signed-value")
			sv.Assert(signedFits(got, r&3), "signed-fit")
			sv.Reach("signed")
		} else if err != nil {
			sv.Assert(!(ok && sgn && signedFits(int64(u), r&3)), "signed-refused")
			sv.Reach("signed-refused")
		} else {
			sv.Assert(r >= 4 && b[0] == 0xc0, "signed-nil")
		}
		return
	}
	got, present, err := readUint(&d, r-8)
	if err == nil && present {
		sv.Assert(ok && got == u && !neg, "unsigned-value")
		sv.Assert(unsignedFits(got, r&3), "unsigned-fit")
		sv.Reach("unsigned")
	} else if err != nil {
		sv.Assert(!(ok && !neg && unsignedFits(u, r&3)), "unsigned-refused")
		sv.Reach("unsigned-refused")
	} else {
		sv.Assert(r >= 12 && b[0] == 0xc0, "unsigned-nil")
	}
}
