package msgp

import (
	"errors"
	"math"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/msgpack/convert"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
)

type (
	myI32 int32
	myI64 int64
	myU64 uint64
	myF32 float32
	myF64 float64
	myStr string
	myBit bool
	myRaw []byte
)

func must(p payload.Payload, err error) payload.Payload {
	sv.Assert(err == nil, "encode-err")
	return p
}

// IntTransforms round-trips the integer transforms.
//
//sv:harness prop=C19
//sv:bound every value of 10 integer and 3 generic integer transforms
func IntTransforms() {
	u := sv.U64("u")
	var err error
	ok := false
	switch sv.Choose("transform", 13) {
	case 0:
		x, e := transform.Int.Decode(must(transform.Int.Encode(int(u))))
		ok, err = x == int(u), e
	case 1:
		x, e := transform.Int64.Decode(must(transform.Int64.Encode(int64(u))))
		ok, err = x == int64(u), e
	case 2:
		x, e := transform.Int32.Decode(must(transform.Int32.Encode(int32(u))))
		ok, err = x == int32(u), e
	case 3:
		x, e := transform.Int16.Decode(must(transform.Int16.Encode(int16(u))))
		ok, err = x == int16(u), e
	case 4:
		x, e := transform.Int8.Decode(must(transform.Int8.Encode(int8(u))))
		ok, err = x == int8(u), e
	case 5:
		x, e := transform.Uint.Decode(must(transform.Uint.Encode(uint(u))))
		ok, err = x == uint(u), e
	case 6:
		x, e := transform.Uint64.Decode(must(transform.Uint64.Encode(u)))
		ok, err = x == u, e
	case 7:
		x, e := transform.Uint32.Decode(must(transform.Uint32.Encode(uint32(u))))
		ok, err = x == uint32(u), e
	case 8:
		x, e := transform.Uint16.Decode(must(transform.Uint16.Encode(uint16(u))))
		ok, err = x == uint16(u), e
	case 9:
		x, e := transform.Uint8.Decode(must(transform.Uint8.Encode(uint8(u))))
		ok, err = x == uint8(u), e
	case 10:
		x, e := transform.Int32Decode[myI32](must(transform.Int32Encode(myI32(u))))
		ok, err = x == myI32(u), e
	case 11:
		x, e := transform.Int64Decode[myI64](must(transform.Int64Encode(myI64(u))))
		ok, err = x == myI64(u), e
	case 12:
		x, e := transform.Uint64Decode[myU64](must(transform.Uint64Encode(myU64(u))))
		ok, err = x == myU64(u), e
	}
	sv.Assert(err == nil, "decode-err")
	sv.Assert(ok, "value")
	sv.Reach("done")
}

// OtherTransforms round-trips the remaining transforms.
//
//sv:harness prop=C19
//sv:bound every boolean and float; strings and byte arrays up to 300 bytes; lists, maps and codecs with up to 2 elements
func OtherTransforms() {
	switch sv.Choose("transform", 15) {
	case 0:
		v := sv.Bool("v")
		x, err := transform.Bool.Decode(must(transform.Bool.Encode(v)))
		sv.Assert(err == nil && x == v, "bool")
	case 1:
		v := sv.F64("v")
		x, err := transform.Float64.Decode(must(transform.Float64.Encode(v)))
		sv.Assert(err == nil && math.Float64bits(x) == math.Float64bits(v), "f64")
	case 2:
		v := sv.F32("v")
		x, err := transform.Float32.Decode(must(transform.Float32.Encode(v)))
		sv.Assert(err == nil && math.Float32bits(x) == math.Float32bits(v), "f32")
	case 3:
		v := myF64(sv.F64("v"))
		x, err := transform.Float64Decode[myF64](must(transform.Float64Encode(v)))
		sv.Assert(err == nil && math.Float64bits(float64(x)) == math.Float64bits(float64(v)), "gf64")
	case 4:
		v := myF32(sv.F32("v"))
		x, err := transform.Float32Decode[myF32](must(transform.Float32Encode(v)))
		sv.Assert(err == nil && math.Float32bits(float32(x)) == math.Float32bits(float32(v)), "gf32")
	case 5:
		v := sv.String("v", 300)
		x, err := transform.String.Decode(must(transform.String.Encode(v)))
		sv.Assert(err == nil, "string-err")
		sv.SameString(x, v, "string")
	case 6:
		v := sv.String("v", 300)
		x, err := transform.StringDecode[myStr](must(transform.StringEncode(myStr(v))))
		sv.Assert(err == nil, "gstring-err")
		sv.SameString(string(x), v, "gstring")
	case 7:
		v := sv.Bytes("v", 300)
		x, err := transform.Bytes.Decode(must(transform.Bytes.Encode(v)))
		sv.Assert(err == nil, "bytes-err")
		sv.SameBytes(x, v, "bytes")
	case 8:
		v := drawAny(9)
		x, err := transform.Any.Decode(must(transform.Any.Encode(v)))
		sv.Assert(err == nil, "any-err")
		sameAny(v, x, "any")
	case 9:
		_, err := transform.Void.Decode(must(transform.Void.Encode(struct{}{})))
		sv.Assert(err == nil, "void")
	case 10:
		v := drawRec()
		x, err := transform.MsgPackDecode[rec](must(transform.MsgPackEncode(*v)))
		sv.Assert(err == nil, "codec-err")
		sameRec(v, &x, "codec")
	case 11:
		v := []string{}
		for i := sv.Choose("n", 3); i > 0; i-- {
			v = append(v, sv.String("s", 3))
		}
		x, err := transform.SliceDecode(msgpack.Reader.ReadString)(must(transform.SliceEncode(msgpack.Writer.WriteString)(v)))
		sv.Assert(err == nil && len(x) == len(v), "slice")
		for i := range v {
			sv.SameString(x[i], v[i], "slice-elem")
		}
	case 12:
		v := map[uint16]int64{}
		for i := sv.Choose("n", 3); i > 0; i-- {
			v[uint16(i*200)] = sv.I64("v")
		}
		x, err := transform.MapDecode(msgpack.Reader.ReadUint16, msgpack.Reader.ReadInt64)(must(transform.MapEncode(msgpack.Writer.WriteUint16, msgpack.Writer.WriteInt64)(v)))
		sv.Assert(err == nil && len(x) == len(v), "map")
		for k, e := range v {
			g, ok := x[k]
			sv.Assert(ok && g == e, "map-elem")
		}
	case 13:
		v := sv.U8("v")
		bad := sv.Bool("bad")
		enc := transform.ToStringEncode(func(u uint8) string { return string([]byte{'#', u}) })
		dec := transform.ToStringDecode(func(s string) (uint8, error) {
			if bad {
				return 0, errElem
			}
			return s[1], nil
		})
		x, err := dec(must(enc(v)))
		if bad {
			sv.Assert(errors.Is(err, errElem), "tostring-err")
		} else {
			sv.Assert(err == nil && x == v, "tostring")
		}
	case 14:
		v := drawRec()
		var x rec
		err := transform.CodecDecode(must(transform.CodecEncode(v)), &x)
		sv.Assert(err == nil, "codec2-err")
		sameRec(v, &x, "codec2")
	}
	sv.Reach("done")
}

func sameRec(w, g *rec, label string) {
	sv.Assert(g.id == w.id, label+"-id")
	sv.SameString(g.name, w.name, label+"-name")
	sv.Assert((g.opt == nil) == (w.opt == nil), label+"-opt")
	if w.opt != nil {
		sv.Assert(*g.opt == *w.opt, label+"-optv")
	}
	sv.Assert(len(g.list) == len(w.list), label+"-list")
	for i := range w.list {
		sv.SameString(g.list[i], w.list[i], label+"-item")
	}
}

// TimeTransform round-trips the time transform.
//
//sv:harness prop=C19 time=60
//sv:bound 5 dates, 3 times of day, UTC; any whole number of milliseconds below 100 (1000 in the thorough tier)
func TimeTransform() {
	dates := []struct{ y, m, d int }{{1970, 1, 1}, {2024, 2, 29}, {1, 1, 1}, {9999, 12, 31}, {1969, 7, 20}}
	d := dates[sv.Choose("date", len(dates))]
	t := []struct{ h, m, s int }{{0, 0, 0}, {23, 59, 59}, {9, 10, 5}}[sv.Choose("tod", 3)]
	max := 99
	if sv.Deep() {
		max = 999
	}
	ns := sv.IntRange("ms", 0, max) * 1000000
	v := time.Date(d.y, time.Month(d.m), d.d, t.h, t.m, t.s, ns, time.UTC)
	x, err := transform.Time.Decode(must(transform.Time.Encode(v)))
	sv.Assert(err == nil, "err")
	sv.Assert(x.Equal(v), "value")
	y, err := convert.StringToTime(convert.TimeToString(v), nil)
	sv.Assert(err == nil && y.Equal(v), "convert")
	sv.Reach("done")
}

// TransformErrors decodes arbitrary bytes: a transform fails exactly when its reader does.
//
//sv:harness prop=C19
//sv:bound 28 transforms, every input of up to 10 bytes (3 bytes for the generic, list, map and codec ones)
func TransformErrors() {
	k := sv.Choose("transform", 28)
	max := 10
	if k >= 19 {
		max = 3
	}
	b := sv.Bytes("b", max)
	p := payload.New(b)
	d := msgpack.NewDecoder(b)
	var err, want error
	same := true
	switch k {
	case 0:
		x, e := transform.Int.Decode(p)
		y, f := d.ReadInt64()
		err, want, same = e, f, int64(x) == y
	case 1:
		x, e := transform.Int64.Decode(p)
		y, f := d.ReadInt64()
		err, want, same = e, f, x == y
	case 2:
		x, e := transform.Int32.Decode(p)
		y, f := d.ReadInt32()
		err, want, same = e, f, x == y
	case 3:
		x, e := transform.Int16.Decode(p)
		y, f := d.ReadInt16()
		err, want, same = e, f, x == y
	case 4:
		x, e := transform.Int8.Decode(p)
		y, f := d.ReadInt8()
		err, want, same = e, f, x == y
	case 5:
		x, e := transform.Uint.Decode(p)
		y, f := d.ReadUint64()
		err, want, same = e, f, uint64(x) == y
	case 6:
		x, e := transform.Uint64.Decode(p)
		y, f := d.ReadUint64()
		err, want, same = e, f, x == y
	case 7:
		x, e := transform.Uint32.Decode(p)
		y, f := d.ReadUint32()
		err, want, same = e, f, x == y
	case 8:
		x, e := transform.Uint16.Decode(p)
		y, f := d.ReadUint16()
		err, want, same = e, f, x == y
	case 9:
		x, e := transform.Uint8.Decode(p)
		y, f := d.ReadUint8()
		err, want, same = e, f, x == y
	case 10:
		x, e := transform.Bool.Decode(p)
		y, f := d.ReadBool()
		err, want, same = e, f, x == y
	case 11:
		_, err = transform.Float64.Decode(p)
		_, want = d.ReadFloat64()
	case 12:
		_, err = transform.Float32.Decode(p)
		_, want = d.ReadFloat32()
	case 13:
		x, e := transform.String.Decode(p)
		y, f := d.ReadString()
		err, want, same = e, f, x == y
	case 14:
		x, e := transform.Bytes.Decode(p)
		y, f := d.ReadByteArray()
		err, want, same = e, f, string(x) == string(y)
	case 15:
		x, e := transform.Int32Decode[myI32](p)
		y, f := d.ReadInt32()
		err, want, same = e, f, int32(x) == y
	case 16:
		x, e := transform.Uint64Decode[myU64](p)
		y, f := d.ReadUint64()
		err, want, same = e, f, uint64(x) == y
	case 17:
		x, e := transform.StringDecode[myStr](p)
		y, f := d.ReadString()
		err, want, same = e, f, string(x) == y
	case 18:
		var called bool
		_, e := transform.ToStringDecode(func(string) (int, error) { called = true; return 0, nil })(p)
		_, f := d.ReadString()
		err, want, same = e, f, called == (f == nil)
	case 19:
		_, err = transform.Any.Decode(p)
		_, want = d.ReadAny()
	case 20:
		_, err = transform.SliceDecode(msgpack.Reader.ReadInt8)(p)
		_, want = msgpack.ReadSlice(&d, msgpack.Reader.ReadInt8)
	case 21:
		_, err = transform.MapDecode(msgpack.Reader.ReadInt8, msgpack.Reader.ReadInt8)(p)
		_, want = msgpack.ReadMap(&d, msgpack.Reader.ReadInt8, msgpack.Reader.ReadInt8)
	case 22:
		var x rec
		_, err = transform.MsgPackDecode[rec](p)
		want = x.Decode(&d)
	case 23:
		var x, y rec
		err = transform.CodecDecode(p, &x)
		want = y.Decode(&d)
	case 24:
		_, err = transform.Time.Decode(p)
		sv.Assert(err != nil, "no-time") // too short for one
		return
	case 25:
		x, e := transform.Int64Decode[myI64](p)
		y, f := d.ReadInt64()
		err, want, same = e, f, int64(x) == y
	case 26:
		_, err = transform.Float64Decode[myF64](p)
		_, want = d.ReadFloat64()
	case 27:
		_, err = transform.Float32Decode[myF32](p)
		_, want = d.ReadFloat32()
	}
	sv.Assert((err == nil) == (want == nil), "error")
	if err != nil {
		sv.Assert(err.Error() == want.Error(), "error-kind")
		sv.Reach("error")
		return
	}
	sv.Assert(same, "value")
	sv.Reach("ok")
}

// EncodeErrors encodes values that cannot be encoded.
//
//sv:harness prop=C19
//sv:bound codecs, lists, maps and generic values that fail to encode, or that grow between being sized and being written
func EncodeErrors() {
	var p payload.Payload
	var err error
	switch sv.Choose("kind", 9) {
	case 4:
		p, err = transform.MapEncode(msgpack.Writer.WriteString, func(w msgpack.Writer, r *rec) { w.WriteAny(r) })(map[string]*rec{"k": {fail: true}})
	case 5:
		p, err = transform.SliceEncode(growing())([]int8{1, 2})
	case 6:
		p, err = transform.MapEncode(msgpack.Writer.WriteString, growing())(map[string]int8{"k": 1})
	case 7:
		p, err = transform.CodecEncode(&grower{})
	case 8:
		p, err = transform.Any.Encode(&grower{})
	case 0:
		p, err = transform.CodecEncode(&rec{fail: true})
	case 1:
		p, err = transform.MsgPackEncode(rec{fail: true})
	case 2:
		p, err = transform.Any.Encode(odd{1})
	case 3:
		p, err = transform.SliceEncode(func(w msgpack.Writer, r *rec) { w.WriteAny(r) })([]*rec{{fail: true}})
	}
	sv.Assert(err != nil, "silent")
	sv.Assert(p == nil, "payload")
	sv.Reach("done")
}

// Nillables checks the nillable conversions.
//
//sv:harness prop=C19
//sv:bound present (any value), absent, and error with or without a value, for 8 conversions
func Nillables() {
	var inErr error
	if sv.Bool("err") {
		inErr = errElem
	}
	present := sv.Bool("present")
	u := sv.U64("u")
	check := func(got bool, err error, same func() bool) {
		sv.Assert(err == inErr, "error")
		if inErr != nil {
			sv.Reach("error")
			return
		}
		sv.Assert(got == present, "presence")
		if got {
			sv.Assert(same(), "value")
			sv.Reach("present")
		} else {
			sv.Reach("absent")
		}
	}
	switch sv.Choose("conversion", 8) {
	case 0:
		var p *string
		s := sv.String("s", 5)
		if present {
			p = &s
		}
		g, err := convert.NillableString[myStr](p, inErr)
		check(g != nil, err, func() bool { return string(*g) == s })
	case 1:
		var p *bool
		b := u&1 == 1
		if present {
			p = &b
		}
		g, err := convert.NillableBool[myBit](p, inErr)
		check(g != nil, err, func() bool { return bool(*g) == b })
	case 2:
		var p *int64
		i := int64(u)
		if present {
			p = &i
		}
		g, err := convert.NillableNumeric[myI64](p, inErr)
		check(g != nil, err, func() bool { return int64(*g) == i })
	case 3:
		var p *uint32
		i := uint32(u)
		if present {
			p = &i
		}
		g, err := convert.NillableNumeric[myU64](p, inErr)
		check(g != nil, err, func() bool { return uint64(*g) == uint64(i) })
	case 4:
		var p *uint64
		if present {
			p = &u
		}
		g, err := convert.NillableParse(func(x uint64) (myU64, error) { return myU64(x + 1), nil })(p, inErr)
		check(g != nil, err, func() bool { return uint64(*g) == u+1 })
	case 5:
		var p *uint64
		if present {
			p = &u
		}
		g := convert.Format(func(x *uint64) string { return string(app(nil, *x, 8)) })(p)
		sv.Assert((g != nil) == present, "format-presence")
		if g != nil {
			sv.SameString(*g, string(app(nil, u, 8)), "format")
		}
	case 6:
		var p *string
		s := "2024-02-29T23:59:59.000000001Z"
		if present {
			p = &s
		}
		g, err := convert.StringToTimePtr(p, inErr)
		check(g != nil, err, func() bool {
			back := convert.TimeToStringPtr(g)
			return back != nil && *back == s
		})
		sv.Assert(convert.TimeToStringPtr(nil) == nil, "time-absent")
	case 7:
		fail := errors.New("parse")
		bad := sv.Bool("bad")
		var p *uint64
		if present {
			p = &u
		}
		g, err := convert.NillableParse(func(x uint64) (uint64, error) {
			if bad {
				return 0, fail
			}
			return x, nil
		})(p, inErr)
		if bad && present && inErr == nil {
			sv.Assert(g == nil && err == fail, "parse-error")
		} else {
			check(g != nil, err, func() bool { return *g == u })
		}
	}
}

// Conversions checks the plain conversions.
//
//sv:harness prop=C19
//sv:bound any value of 5 conversions, with and without an error
func Conversions() {
	var inErr error
	if sv.Bool("err") {
		inErr = errElem
	}
	u := sv.U64("u")
	var err error
	same := true
	switch sv.Choose("conversion", 7) {
	case 0:
		s := sv.String("s", 5)
		g, e := convert.String[myStr](s, inErr)
		err, same = e, string(g) == s
	case 1:
		g, e := convert.Bool[myBit](u&1 == 1, inErr)
		err, same = e, bool(g) == (u&1 == 1)
	case 2:
		g, e := convert.Numeric[myI64](int32(u), inErr)
		err, same = e, int64(g) == int64(int32(u))
	case 3:
		b := sv.Bytes("b", 5)
		g, e := convert.ByteArray[myRaw](b, inErr)
		err, same = e, string(g) == string(b)
	case 4:
		g, e := convert.Parse(func(x uint64) (uint64, error) { return x + 1, nil })(u, inErr)
		err, same = e, g == u+1
	case 5:
		_, e := convert.Parse(func(x uint64) (uint64, error) { return 0, errRec })(u, inErr)
		if inErr == nil {
			sv.Assert(e == errRec, "parse-error")
			return
		}
		err = e
	case 6:
		_, err = convert.StringToTime("2024-02-29T23:59:59Z", inErr)
	}
	sv.Assert(err == inErr, "error")
	sv.Assert(inErr != nil || same, "value")
	sv.Reach("done")
}

// growing writes more each time.
func growing() func(msgpack.Writer, int8) {
	n := int64(1)
	return func(w msgpack.Writer, _ int8) {
		w.WriteInt64(n)
		n *= 200
	}
}

type grower struct{ n int64 }

func (g *grower) Encode(w msgpack.Writer) error {
	g.n = g.n*200 + 1
	w.WriteInt64(g.n)
	return nil
}

func (g *grower) Decode(msgpack.Reader) error { return nil }
