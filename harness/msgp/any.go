package msgp

import (
	"errors"
	"math"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/msgpack"
)

// num is v as an integer: its bits, whether it is negative, and whether it is an integer at all.
func num(v any) (u uint64, neg, ok bool) {
	switch x := v.(type) {
	case int:
		return uint64(x), x < 0, true
	case int8:
		return uint64(x), x < 0, true
	case int16:
		return uint64(x), x < 0, true
	case int32:
		return uint64(x), x < 0, true
	case int64:
		return uint64(x), x < 0, true
	case uint:
		return uint64(x), false, true
	case uint8:
		return uint64(x), false, true
	case uint16:
		return uint64(x), false, true
	case uint32:
		return uint64(x), false, true
	case uint64:
		return x, false, true
	}
	return 0, false, false
}

// sameAny asserts that got, as read, equals want, as written.
func sameAny(want, got any, label string) {
	if u, neg, ok := num(want); ok {
		gu, gneg, gok := num(got)
		sv.Assert(gok, label+"-int-kind")
		sv.Assert(gu == u && gneg == neg, label+"-int")
		return
	}
	switch w := want.(type) {
	case nil:
		sv.Assert(got == nil, label+"-nil")
	case bool:
		g, ok := got.(bool)
		sv.Assert(ok && g == w, label+"-bool")
	case float32:
		g, ok := got.(float32)
		sv.Assert(ok && math.Float32bits(g) == math.Float32bits(w), label+"-float32")
	case float64:
		g, ok := got.(float64)
		sv.Assert(ok && math.Float64bits(g) == math.Float64bits(w), label+"-float64")
	case string:
		g, ok := got.(string)
		sv.Assert(ok, label+"-string-kind")
		sv.SameString(g, w, label+"-string")
	case []byte:
		g, ok := got.([]byte)
		sv.Assert(ok, label+"-bytes-kind")
		sv.SameBytes(g, w, label+"-bytes")
	case time.Time:
		g, ok := got.(time.Time)
		sv.Assert(ok && g.Equal(w), label+"-time")
	case []any:
		g, ok := got.([]any)
		sv.Assert(ok && len(g) == len(w), label+"-list")
		for i := range w {
			sameAny(w[i], g[i], label)
		}
	default:
		sv.Fail(label + "-oracle")
	}
}

// drawAny is an arbitrary scalar.
func drawAny(kinds int) any {
	switch sv.Choose("kind", kinds) {
	case 0:
		return nil
	case 1:
		return sv.I64("i")
	case 2:
		return sv.String("s", 40)
	case 3:
		return sv.Bool("bool")
	case 4:
		return sv.Bytes("bytes", 40)
	case 5:
		return sv.U64("u")
	case 6:
		return sv.F64("f64")
	case 7:
		return sv.F32("f32")
	case 8:
		sec, ns := sv.I64("sec"), sv.I64("ns")
		sv.Assume(ns >= 0 && ns <= maxNano && sec < 1<<61 && sec > -1<<61)
		return time.Unix(sec, ns)
	case 9:
		return sv.Int("int")
	case 10:
		return sv.I8("i8")
	case 11:
		return sv.I16("i16")
	case 12:
		return sv.I32("i32")
	case 13:
		return uint(sv.U64("uint"))
	case 14:
		return sv.U8("u8")
	case 15:
		return sv.U16("u16")
	}
	return sv.U32("u32")
}

// roundTrip writes v generically and reads it back generically.
func roundTrip(v any, label string) any {
	b := exact(func(w msgpack.Writer) { w.WriteAny(v) }, label)
	sv.Assert(extent(b) == len(b), label+"-malformed")
	h, err := msgpack.AnyToBytes(v)
	sv.Assert(err == nil && len(h) == len(b), label+"-helper")
	d := msgpack.NewDecoder(marked(b))
	got, err := d.ReadAny()
	sv.Assert(err == nil, label+"-read")
	atMark(&d, label+"-consumed")
	return got
}

// AnyScalars round-trips generic scalars.
//
//sv:harness prop=C16
//sv:bound 17 scalar kinds, any value; strings and byte arrays up to 40 bytes (longer ones: C12)
func AnyScalars() {
	v := drawAny(17)
	sameAny(v, roundTrip(v, "scalar"), "scalar")
	sv.Reach("done")
}

// AnyLists round-trips lists.
//
//sv:harness prop=C16 time=120
//sv:bound lists of 0 to 2 (3 in the thorough tier) arbitrary scalars of 4 kinds, and lists of lists
func AnyLists() {
	max := 3
	if sv.Deep() {
		max = 4
	}
	n := sv.Choose("n", max)
	v := []any{}
	for i := 0; i < n; i++ {
		v = append(v, drawAny(4))
	}
	var w any = v
	switch sv.Choose("wrap", 3) {
	case 1:
		w = []any{v}
	case 2:
		w = []any{true, v, nil}
	}
	sameAny(w, roundTrip(w, "list"), "list")
	sv.Reach("done")
}

// AnyTyped round-trips the typed collections.
//
//sv:harness prop=C16 time=120
//sv:bound 15 list and 13 map types of 0 to 2 and 16 elements (65536 list elements in the thorough tier), any integer as element or key
func AnyTyped() {
	u := sv.U64("u")
	if !sv.Bool("map") {
		k := sv.Choose("kind", nLists)
		sizes := []int{0, 1, 2, 16, 65536}
		ns := 4
		if sv.Deep() {
			ns = 5
		}
		n := sizes[sv.Choose("n", ns)]
		if n > 2 {
			u = 300
		}
		v := list(k, n, u, "text")
		got := roundTrip(v, "typed")
		if k == 13 {
			sameAny(v, got, "typed")
			return
		}
		g, ok := got.([]any)
		sv.Assert(ok && len(g) == n, "typed-len")
		for i := range g {
			sameAny(elem(v, i), g[i], "typed")
		}
		sv.Reach("list")
		return
	}
	k := sv.Choose("kind", nMaps)
	n := []int{0, 1, 2, 16}[sv.Choose("n", 4)]
	if n > 2 {
		u = 7
	}
	v := table(k, n, u, int16(-3), "v")
	got := roundTrip(v, "map")
	g, ok := got.(map[any]any)
	sv.Assert(ok && len(g) == n, "map-len")
	for i := 0; i < n; i++ {
		if k < 2 {
			x, ok := g[keyName(i)]
			sv.Assert(ok, "map-key")
			if k == 0 {
				sameAny("v", x, "map")
			} else {
				sameAny(int16(-3), x, "map")
			}
			continue
		}
		key := mapKey(k, u, i)
		found := 0
		for gk, gv := range g {
			a, an, _ := num(key)
			b, bn, isNum := num(gk)
			sv.Assert(isNum, "map-key-kind")
			if a == b && an == bn {
				found++
				sameAny(int16(-3), gv, "map")
			}
		}
		sv.Assert(found == 1, "map-key")
	}
	sv.Reach("map")
}

func elem(v any, i int) any {
	switch x := v.(type) {
	case []any:
		return x[i]
	case []string:
		return x[i]
	case []time.Time:
		return x[i]
	case []bool:
		return x[i]
	case []int:
		return x[i]
	case []int8:
		return x[i]
	case []int16:
		return x[i]
	case []int32:
		return x[i]
	case []int64:
		return x[i]
	case []uint:
		return x[i]
	case []uint16:
		return x[i]
	case []uint32:
		return x[i]
	case []uint64:
		return x[i]
	}
	return nil
}

func mapKey(kind int, u uint64, i int) any {
	switch kind {
	case 2:
		return int(u) + i
	case 3:
		return int8(u) + int8(i)
	case 4:
		return int16(u) + int16(i)
	case 5:
		return int32(u) + int32(i)
	case 6:
		return int64(u) + int64(i)
	case 7:
		return uint(u) + uint(i)
	case 8:
		return uint8(u) + uint8(i)
	case 9:
		return uint16(u) + uint16(i)
	case 10:
		return uint32(u) + uint32(i)
	}
	return u + uint64(i)
}

// AnyNested round-trips maps of lists of maps.
//
//sv:harness prop=C16
//sv:bound a map of two keys holding an arbitrary scalar of 6 kinds and a list of a map of an arbitrary scalar of 3 kinds
func AnyNested() {
	a, b := drawAny(6), drawAny(3)
	v := map[string]any{"a": a, "b": []any{map[any]any{"c": b}}}
	g, ok := roundTrip(v, "nested").(map[any]any)
	sv.Assert(ok && len(g) == 2, "outer")
	sameAny(a, g["a"], "outer")
	l, ok := g["b"].([]any)
	sv.Assert(ok && len(l) == 1, "inner")
	m, ok := l[0].(map[any]any)
	sv.Assert(ok && len(m) == 1, "innermost")
	x, ok := m["c"]
	sv.Assert(ok, "innermost-key")
	sameAny(b, x, "innermost")
	sv.Reach("done")
}

type odd struct{ x int }

// AnyUnsupported writes values that have no generic form.
//
//sv:harness prop=C16
//sv:bound 10 unsupported kinds, alone or inside a list or map, after and before supported values; a codec that fails
func AnyUnsupported() {
	x := sv.Int("x")
	var v any
	switch sv.Choose("kind", 11) {
	case 0:
		v = odd{x}
	case 1:
		v = &x
	case 2:
		v = complex(1, 2)
	case 3:
		v = func() {}
	case 4:
		v = make(chan int)
	case 5:
		v = []odd{{x}}
	case 6:
		v = map[string]odd{"a": {x}}
	case 7:
		v = [2]int{x, x}
	case 8:
		v = errors.New("x")
	case 9:
		v = map[odd]any{{x}: 1}
	case 10:
		v = &rec{fail: true}
	}
	switch sv.Choose("wrap", 5) {
	case 1:
		v = []any{v}
	case 2:
		v = []any{1, v, "x"}
	case 3:
		v = map[string]any{"k": v}
	case 4:
		v = map[any]any{"k": []any{v}}
	}
	b, err := msgpack.AnyToBytes(v)
	sv.Assert(err != nil && b == nil, "helper-silent")
	buf := make([]byte, 64)
	e := msgpack.NewEncoder(buf)
	e.WriteAny(v)
	sv.Assert(e.Err() != nil, "encoder-silent")
	e.WriteInt64(1)
	sv.Assert(e.Err() != nil, "encoder-forgets")
	s := msgpack.NewSizer()
	s.WriteAny(v)
	sv.Assert(s.Err() != nil, "sizer-silent")
	sv.Reach("done")
}

// Space encodes into a buffer of any size.
//
//sv:harness prop=C17
//sv:bound 34 operations, any argument (strings and byte arrays up to 300 bytes); any buffer size up to 320 bytes, inside a larger array of any content
func Space() {
	in := draw(300)
	op := sv.Choose("op", nScalar)
	s := msgpack.NewSizer()
	in.write(&s, op)
	need := int(s.Len())
	n := sv.IntRange("n", 0, 320)
	const guard = 8
	store := sv.BytesN("store", 320+2*guard)
	orig := append([]byte{}, store...)
	e := msgpack.NewEncoder(store[guard : guard+n])
	in.write(&e, op)
	sv.Assert((e.Err() != nil) == (need > n), "report")
	sv.SameBytes(store[:guard], orig[:guard], "before")
	sv.SameBytes(store[guard+n:], orig[guard+n:], "after")
	if e.Err() != nil {
		sv.Assert(errors.Is(e.Err(), msgpack.ErrRange), "kind")
		in.write(&e, []int{0, 13, 20, 21, 24}[sv.Choose("later", 5)])
		sv.Assert(errors.Is(e.Err(), msgpack.ErrRange), "forgotten")
		sv.SameBytes(store[:guard], orig[:guard], "later-before")
		sv.SameBytes(store[guard+n:], orig[guard+n:], "later-after")
		sv.Reach("range")
		return
	}
	sv.Reach("fits")
}

// SpaceLong encodes long texts.
//
//sv:harness prop=C17
//sv:bound strings and byte arrays of up to 70000 bytes, any buffer size up to 70100 bytes
func SpaceLong() {
	in := draw(maxText)
	op := []int{20, 21, 28, 29}[sv.Choose("op", 4)]
	s := msgpack.NewSizer()
	in.write(&s, op)
	need := int(s.Len())
	n := sv.IntRange("n", 0, maxText+100)
	const guard = 8
	store := make([]byte, maxText+100+2*guard)
	e := msgpack.NewEncoder(store[guard : guard+n])
	in.write(&e, op)
	sv.Assert((e.Err() != nil) == (need > n), "report")
	k := sv.IntRange("at", 0, maxText+100+2*guard-1)
	sv.Assume(k < guard || k >= guard+n)
	sv.Assert(store[k] == 0, "outside")
	if e.Err() == nil {
		sv.Reach("fits")
	} else {
		sv.Reach("range")
	}
}

// SpaceAny encodes generic values.
//
//sv:harness prop=C17
//sv:bound 15 list and 13 map types of 0 to 2 elements, and lists of scalars; any buffer size up to 40 bytes
func SpaceAny() {
	u := sv.U64("u")
	var v any
	switch sv.Choose("what", 3) {
	case 0:
		v = list(sv.Choose("kind", nLists), sv.Choose("n", 3), u, "text")
	case 1:
		k := sv.Choose("kind", nMaps)
		n := sv.Choose("n", 3)
		u &= 0xff
		v = table(k, n, u, int16(-3), "v")
	case 2:
		v = []any{drawAny(9), nil}
	}
	s := msgpack.NewSizer()
	s.WriteAny(v)
	need := int(s.Len())
	n := sv.IntRange("n", 0, 40)
	const guard = 8
	store := make([]byte, 40+2*guard)
	e := msgpack.NewEncoder(store[guard : guard+n])
	e.WriteAny(v)
	sv.Assert((e.Err() != nil) == (need > n), "report")
	for i := 0; i < guard; i++ {
		sv.Assert(store[i] == 0, "before")
		sv.Assert(store[guard+n+i] == 0, "after")
	}
	sv.Reach("done")
}
