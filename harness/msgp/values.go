package msgp

import (
	"math"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/msgpack"
)

// Bools round-trips booleans and nil.
//
//sv:harness prop=C12
//sv:bound both booleans, absent and present, typed, nillable, generic and single-value writers
func Bools() {
	v := sv.Bool("v")
	k := sv.Choose("writer", 5)
	var b []byte
	switch k {
	case 0:
		b = exact(func(w msgpack.Writer) { w.WriteBool(v) }, "write")
	case 1:
		b = exact(func(w msgpack.Writer) { w.WriteNillableBool(&v) }, "write")
	case 2:
		b = exact(func(w msgpack.Writer) { w.WriteAny(v) }, "write")
	case 3:
		var err error
		b, err = msgpack.BoolToBytes(v)
		sv.Assert(err == nil, "helper")
	case 4:
		b = exact(func(w msgpack.Writer) { w.WriteNillableBool(nil) }, "write")
		sv.SameBytes(b, []byte{0xc0}, "nil-form")
		d := msgpack.NewDecoder(marked(b))
		p, err := d.ReadNillableBool()
		sv.Assert(p == nil && err == nil, "nil-value")
		atMark(&d, "nil-consumed")
		return
	}
	want := byte(0xc2)
	if v {
		want = 0xc3
	}
	sv.SameBytes(b, []byte{want}, "form")
	d := msgpack.NewDecoder(marked(b))
	if sv.Bool("nillable") {
		p, err := d.ReadNillableBool()
		sv.Assert(err == nil && p != nil && *p == v, "nillable-value")
	} else {
		got, err := d.ReadBool()
		sv.Assert(err == nil && got == v, "value")
	}
	atMark(&d, "consumed")
	sv.Reach("done")
}

// Nils checks that every nillable reader accepts what every nillable writer writes for absent.
//
//sv:harness prop=C12
//sv:bound 15 nillable writers and the generic one x 15 nillable readers
func Nils() {
	k := sv.Choose("writer", 18)
	b := exact(func(w msgpack.Writer) {
		switch k {
		case 0:
			w.WriteNil()
		case 1:
			w.WriteNillableBool(nil)
		case 2:
			w.WriteNillableInt8(nil)
		case 3:
			w.WriteNillableInt16(nil)
		case 4:
			w.WriteNillableInt32(nil)
		case 5:
			w.WriteNillableInt64(nil)
		case 6:
			w.WriteNillableUint8(nil)
		case 7:
			w.WriteNillableUint16(nil)
		case 8:
			w.WriteNillableUint32(nil)
		case 9:
			w.WriteNillableUint64(nil)
		case 10:
			w.WriteNillableFloat32(nil)
		case 11:
			w.WriteNillableFloat64(nil)
		case 12:
			w.WriteNillableString(nil)
		case 13:
			w.WriteNillableTime(nil)
		case 14:
			w.WriteNillableByteArray(nil)
		case 15:
			w.WriteAny(nil)
		case 16:
			w.WriteNil()
		case 17:
			w.WriteAny(nil)
		}
	}, "write")
	sv.SameBytes(b, []byte{0xc0}, "form")
	d := msgpack.NewDecoder(marked(b))
	var some bool
	var err error
	switch sv.Choose("reader", 16) {
	case 0:
		var isNil bool
		isNil, err = d.IsNextNil()
		some = !isNil
	case 1:
		p, e := d.ReadNillableBool()
		some, err = p != nil, e
	case 2:
		p, e := d.ReadNillableInt8()
		some, err = p != nil, e
	case 3:
		p, e := d.ReadNillableInt16()
		some, err = p != nil, e
	case 4:
		p, e := d.ReadNillableInt32()
		some, err = p != nil, e
	case 5:
		p, e := d.ReadNillableInt64()
		some, err = p != nil, e
	case 6:
		p, e := d.ReadNillableUint8()
		some, err = p != nil, e
	case 7:
		p, e := d.ReadNillableUint16()
		some, err = p != nil, e
	case 8:
		p, e := d.ReadNillableUint32()
		some, err = p != nil, e
	case 9:
		p, e := d.ReadNillableUint64()
		some, err = p != nil, e
	case 10:
		p, e := d.ReadNillableFloat32()
		some, err = p != nil, e
	case 11:
		p, e := d.ReadNillableFloat64()
		some, err = p != nil, e
	case 12:
		p, e := d.ReadNillableString()
		some, err = p != nil, e
	case 13:
		p, e := d.ReadNillableTime()
		some, err = p != nil, e
	case 14:
		p, e := d.ReadNillableByteArray()
		some, err = p != nil, e
	case 15:
		p, e := d.ReadAny()
		some, err = p != nil, e
	}
	sv.Assert(err == nil && !some, "value")
	atMark(&d, "consumed")
	sv.Reach("done")
}

// Floats round-trips floats bit for bit.
//
//sv:harness prop=C12
//sv:bound every 32- and 64-bit pattern (quiet and signalling NaN payloads included for 64 bits)
func Floats() {
	k := sv.Choose("writer", 4)
	nillable := sv.Bool("nillable")
	if sv.Bool("wide") {
		v := sv.F64("v64")
		var b []byte
		if k == 3 {
			b, _ = msgpack.F64ToBytes(v)
		} else {
			b = exact(func(w msgpack.Writer) {
				switch k {
				case 0:
					w.WriteFloat64(v)
				case 1:
					w.WriteNillableFloat64(&v)
				case 2:
					w.WriteAny(v)
				}
			}, "write64")
		}
		bits := math.Float64bits(v)
		sv.SameBytes(b, app([]byte{0xcb}, bits, 8), "form64")
		d := msgpack.NewDecoder(marked(b))
		if nillable {
			p, err := d.ReadNillableFloat64()
			sv.Assert(err == nil && p != nil && math.Float64bits(*p) == bits, "nillable64")
		} else {
			got, err := d.ReadFloat64()
			sv.Assert(err == nil && math.Float64bits(got) == bits, "value64")
		}
		atMark(&d, "consumed64")
		sv.Reach("wide")
		return
	}
	v := sv.F32("v32")
	var b []byte
	if k == 3 {
		b, _ = msgpack.F32ToBytes(v)
	} else {
		b = exact(func(w msgpack.Writer) {
			switch k {
			case 0:
				w.WriteFloat32(v)
			case 1:
				w.WriteNillableFloat32(&v)
			case 2:
				w.WriteAny(v)
			}
		}, "write32")
	}
	bits := math.Float32bits(v)
	sv.SameBytes(b, app([]byte{0xca}, uint64(bits), 4), "form32")
	d := msgpack.NewDecoder(marked(b))
	if nillable {
		p, err := d.ReadNillableFloat32()
		sv.Assert(err == nil && p != nil && math.Float32bits(*p) == bits, "nillable32")
	} else {
		got, err := d.ReadFloat32()
		sv.Assert(err == nil && math.Float32bits(got) == bits, "value32")
	}
	atMark(&d, "consumed32")
	sv.Reach("narrow")
}

const maxText = 70000

// Strings round-trips strings.
//
//sv:harness prop=C12
//sv:bound every string of up to 70000 bytes
func Strings() {
	v := sv.String("v", maxText)
	k := sv.Choose("writer", 4)
	var b []byte
	if k == 3 {
		b, _ = msgpack.StringToBytes(v)
	} else {
		b = exact(func(w msgpack.Writer) {
			switch k {
			case 0:
				w.WriteString(v)
			case 1:
				w.WriteNillableString(&v)
			case 2:
				w.WriteAny(v)
			}
		}, "write")
	}
	h := refStrHdr(uint64(len(v)))
	sv.Assert(len(b) == len(h)+len(v), "len")
	sv.SameBytes(b[:len(h)], h, "form")
	sv.SameString(string(b[len(h):]), v, "body")
	d := msgpack.NewDecoder(marked(b))
	switch sv.Choose("reader", 3) {
	case 0:
		got, err := d.ReadString()
		sv.Assert(err == nil, "err")
		sv.SameString(got, v, "value")
	case 1:
		p, err := d.ReadNillableString()
		sv.Assert(err == nil && p != nil, "nillable-err")
		sv.SameString(*p, v, "nillable-value")
	case 2:
		x, err := d.ReadAny()
		got, ok := x.(string)
		sv.Assert(err == nil && ok, "any-err")
		sv.SameString(got, v, "any-value")
	}
	atMark(&d, "consumed")
	sv.Reach("done")
}

// Blobs round-trips byte arrays.
//
//sv:harness prop=C12
//sv:bound every byte array of up to 70000 bytes
func Blobs() {
	v := sv.Bytes("v", maxText)
	k := sv.Choose("writer", 4)
	var b []byte
	if k == 3 {
		b, _ = msgpack.BytesToBytes(v)
	} else {
		b = exact(func(w msgpack.Writer) {
			switch k {
			case 0:
				w.WriteByteArray(v)
			case 1:
				w.WriteNillableByteArray(v)
			case 2:
				w.WriteAny(v)
			}
		}, "write")
	}
	h := refBinHdr(uint64(len(v)))
	sv.Assert(len(b) == len(h)+len(v), "len")
	sv.SameBytes(b[:len(h)], h, "form")
	sv.SameBytes(b[len(h):], v, "body")
	d := msgpack.NewDecoder(marked(b))
	switch sv.Choose("reader", 3) {
	case 0:
		got, err := d.ReadByteArray()
		sv.Assert(err == nil, "err")
		sv.SameBytes(got, v, "value")
	case 1:
		got, err := d.ReadNillableByteArray()
		sv.Assert(err == nil && got != nil, "nillable-err")
		sv.SameBytes(got, v, "nillable-value")
	case 2:
		x, err := d.ReadAny()
		got, ok := x.([]byte)
		sv.Assert(err == nil && ok, "any-err")
		sv.SameBytes(got, v, "any-value")
	}
	atMark(&d, "consumed")
	sv.Reach("done")
}

// Headers round-trips collection headers.
//
//sv:harness prop=C12
//sv:bound every 32-bit count, arrays and maps
func Headers() {
	n := sv.U32("n")
	m := sv.Bool("map")
	b := exact(func(w msgpack.Writer) {
		if m {
			w.WriteMapSize(n)
		} else {
			w.WriteArraySize(n)
		}
	}, "write")
	h := refArrHdr(uint64(n))
	if m {
		h = refMapHdr(uint64(n))
	}
	sv.SameBytes(b, h, "form")
	d := msgpack.NewDecoder(marked(b))
	var got uint32
	var err error
	if m {
		got, err = d.ReadMapSize()
	} else {
		got, err = d.ReadArraySize()
	}
	sv.Assert(err == nil && got == n, "value")
	atMark(&d, "consumed")
	sv.Reach("done")
}

const maxNano = 999999999

// Times round-trips timestamps.
//
//sv:harness prop=C13
//sv:bound every instant: any int64 seconds within the range of time.Unix, any nanosecond; typed, nillable, generic and single-value writers; typed, nillable and generic readers
func Times() {
	sec := sv.I64("sec")
	ns := sv.I64("ns")
	sv.Assume(ns >= 0 && ns <= maxNano)
	// the internal form counts seconds from year 1
	sv.Assume(sec < math.MaxInt64-62135596800-1)
	v := time.Unix(sec, ns)
	k := sv.Choose("writer", 4)
	var b []byte
	if k == 3 {
		b, _ = msgpack.TimeToBytes(v)
	} else {
		b = exact(func(w msgpack.Writer) {
			switch k {
			case 0:
				w.WriteTime(v)
			case 1:
				w.WriteNillableTime(&v)
			case 2:
				w.WriteAny(v)
			}
		}, "write")
	}
	var want []byte
	switch {
	case sec >= 0 && sec < 1<<32 && ns == 0:
		want = app([]byte{0xd6, 0xff}, uint64(sec), 4)
	case sec >= 0 && sec < 1<<34:
		want = app([]byte{0xd7, 0xff}, uint64(ns)<<34|uint64(sec), 8)
	default:
		want = app([]byte{0xc7, 12, 0xff}, uint64(ns), 4)
		want = app(want, uint64(sec), 8)
	}
	sv.SameBytes(b, want, "form")
	d := msgpack.NewDecoder(marked(b))
	var got time.Time
	switch sv.Choose("reader", 3) {
	case 0:
		t, err := d.ReadTime()
		sv.Assert(err == nil, "err")
		got = t
	case 1:
		p, err := d.ReadNillableTime()
		sv.Assert(err == nil && p != nil, "nillable-err")
		got = *p
	case 2:
		x, err := d.ReadAny()
		t, ok := x.(time.Time)
		sv.Assert(err == nil && ok, "any-err")
		got = t
	}
	sv.Assert(got.Unix() == sec, "seconds")
	sv.Assert(int64(got.Nanosecond()) == ns, "nanoseconds")
	sv.Assert(got.Equal(v), "equal")
	atMark(&d, "consumed")
	sv.Reach("done")
}

// TimeForms reads timestamps in every form another implementation may write.
//
//sv:harness prop=C13
//sv:bound every content of the 4-, 8- and 12-byte forms with fixed and explicit lengths, with nanoseconds below 10^9
func TimeForms() {
	var b []byte
	var sec, ns uint64
	switch sv.Choose("form", 5) {
	case 0, 1:
		sec = uint64(sv.U32("s32"))
		b = app([]byte{0xd6, 0xff}, sec, 4)
		if sv.Bool("ext8") {
			b = app([]byte{0xc7, 4, 0xff}, sec, 4)
		}
	case 2, 3:
		sec, ns = sv.U64("s34"), sv.U64("n30")
		sv.Assume(sec < 1<<34 && ns <= maxNano)
		b = app([]byte{0xd7, 0xff}, ns<<34|sec, 8)
		if sv.Bool("ext16") {
			b = app([]byte{0xc8, 0, 8, 0xff}, ns<<34|sec, 8)
		}
	case 4:
		sec, ns = sv.U64("s64"), sv.U64("n32")
		sv.Assume(ns <= maxNano && int64(sec) < math.MaxInt64-62135596800-1)
		b = app(app([]byte{0xc7, 12, 0xff}, ns, 4), sec, 8)
		if sv.Bool("ext32") {
			b = app(app([]byte{0xc9, 0, 0, 0, 12, 0xff}, ns, 4), sec, 8)
		}
	}
	d := msgpack.NewDecoder(marked(b))
	var got time.Time
	var err error
	if sv.Bool("generic") {
		var x any
		x, err = d.ReadAny()
		t, ok := x.(time.Time)
		sv.Assert(ok, "any")
		got = t
	} else {
		got, err = d.ReadTime()
	}
	sv.Assert(err == nil, "err")
	sv.Assert(uint64(got.Unix()) == sec && uint64(got.Nanosecond()) == ns, "value")
	atMark(&d, "consumed")
	sv.Reach("done")
}

// TimeText reads timestamps spelled as text, which other implementations send.
//
//sv:harness prop=C13
//sv:bound RFC 3339 text in UTC: any two digits for the minute, second and the last two digits of the year, any fraction of three digits; the fixed, 8-, 16- and 32-bit string forms; typed, nillable readers; out-of-range fields
func TimeText() {
	yy := two("year")
	mi := two("minute")
	ss := two("second")
	frac := sv.BytesN("fraction", 3)
	withFrac := sv.Bool("with-fraction")
	text := append([]byte("20"), yy[0], yy[1])
	text = append(text, "-03-04T05:"...)
	text = append(text, mi[0], mi[1], ':', ss[0], ss[1])
	ns := 0
	if withFrac {
		for _, c := range frac {
			sv.Assume(c >= '0' && c <= '9')
		}
		text = append(text, '.', frac[0], frac[1], frac[2])
		ns = (int(frac[0]-'0')*100 + int(frac[1]-'0')*10 + int(frac[2]-'0')) * 1000000
	}
	text = append(text, 'Z')
	n := byte(len(text))
	var b []byte
	switch sv.Choose("form", 4) {
	case 0:
		b = []byte{0xa0 | n}
	case 1:
		b = []byte{0xd9, n}
	case 2:
		b = []byte{0xda, 0, n}
	case 3:
		b = []byte{0xdb, 0, 0, 0, n}
	}
	b = append(b, text...)
	d := msgpack.NewDecoder(marked(b))
	var got time.Time
	var err error
	if sv.Bool("nillable") {
		var p *time.Time
		p, err = d.ReadNillableTime()
		if err == nil {
			sv.Assert(p != nil, "nillable")
			got = *p
		}
	} else {
		got, err = d.ReadTime()
	}
	m, s := val2(mi), val2(ss)
	if m > 59 || s > 59 {
		sv.Assert(err != nil, "range")
		sv.Reach("range")
		return
	}
	sv.Assert(err == nil, "err")
	want := time.Date(2000+val2(yy), 3, 4, 5, m, s, ns, time.UTC)
	sv.Assert(got.Equal(want), "value")
	atMark(&d, "consumed")
	sv.Reach("done")
}

func two(name string) []byte {
	b := sv.BytesN(name, 2)
	sv.Assume(b[0] >= '0' && b[0] <= '9' && b[1] >= '0' && b[1] <= '9')
	return b
}

func val2(b []byte) int { return int(b[0]-'0')*10 + int(b[1]-'0') }
