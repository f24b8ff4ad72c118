package msgp

import (
	"errors"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/msgpack"
)

const nScalar = 34

// scalar performs one of the writing operations; the inputs are drawn once by drawScalar.
type inputs struct {
	u   uint64
	sec int64
	ns  int64
	s   string
	b   []byte
	n   uint32
}

func draw(max int) *inputs {
	in := &inputs{u: sv.U64("u"), sec: sv.I64("sec"), ns: sv.I64("ns"), n: sv.U32("n")}
	sv.Assume(in.ns >= 0 && in.ns <= maxNano)
	in.s = sv.String("s", max)
	in.b = sv.Bytes("b", max)
	return in
}

func (in *inputs) write(w msgpack.Writer, op int) {
	t := func() time.Time { return time.Unix(in.sec, in.ns) }
	switch op {
	case 0:
		w.WriteNil()
	case 1:
		w.WriteBool(in.u&1 == 1)
	case 2, 3, 4, 5, 6, 7, 8, 9:
		writeInt(w, op-2, int64(in.u))
	case 10, 11, 12, 13, 14, 15, 16, 17:
		writeUint(w, op-10, in.u)
	case 18:
		w.WriteFloat32(float32FromBits(in.u))
	case 19:
		w.WriteFloat64(float64FromBits(in.u))
	case 20:
		w.WriteString(in.s)
	case 21:
		w.WriteByteArray(in.b)
	case 22:
		w.WriteTime(t())
	case 23:
		w.WriteArraySize(in.n)
	case 24:
		w.WriteMapSize(in.n)
	case 25:
		x := in.u&1 == 1
		w.WriteNillableBool(&x)
	case 26:
		x := float32FromBits(in.u)
		w.WriteNillableFloat32(&x)
	case 27:
		x := float64FromBits(in.u)
		w.WriteNillableFloat64(&x)
	case 28:
		w.WriteNillableString(&in.s)
	case 29:
		w.WriteNillableByteArray(in.b)
	case 30:
		x := t()
		w.WriteNillableTime(&x)
	case 31:
		w.WriteNillableString(nil)
	case 32:
		w.WriteNillableByteArray(nil)
	case 33:
		w.WriteNillableTime(nil)
	}
}

// Size checks the size computed for each writing operation.
//
//sv:harness prop=C11
//sv:bound 34 operations, any argument; strings and byte arrays up to 70000 bytes
func Size() {
	in := draw(maxText)
	op := sv.Choose("op", nScalar)
	b := exact(func(w msgpack.Writer) { in.write(w, op) }, "op")
	sv.Observe("len", uint64(len(b)))
	sv.Reach("done")
}

// SizeSum checks that sizes add up over a sequence of operations.
//
//sv:harness prop=C11
//sv:bound two operations in a row, any argument; strings and byte arrays up to 300 bytes
func SizeSum() {
	in := draw(300)
	ops := []int{0, 5, 13, 18, 20, 21, 22, 23, 24}
	p, q := ops[sv.Choose("p", len(ops))], ops[sv.Choose("q", len(ops))]
	exact(func(w msgpack.Writer) {
		in.write(w, p)
		in.write(w, q)
	}, "ops")
	sv.Reach("done")
}

// rec is a codec, as the code generator emits them.
type rec struct {
	id   int64
	name string
	opt  *bool
	list []string
	fail bool
}

var errRec = errors.New("rec")

func (r *rec) Encode(w msgpack.Writer) error {
	if r.fail {
		return errRec
	}
	w.WriteMapSize(4)
	w.WriteString("id")
	w.WriteInt64(r.id)
	w.WriteString("name")
	w.WriteString(r.name)
	w.WriteString("opt")
	w.WriteNillableBool(r.opt)
	w.WriteString("list")
	return msgpack.WriteSlice(w, r.list, msgpack.Writer.WriteString)
}

func (r *rec) Decode(d msgpack.Reader) error {
	n, err := d.ReadMapSize()
	if err != nil {
		return err
	}
	for ; n > 0; n-- {
		k, err := d.ReadString()
		if err != nil {
			return err
		}
		switch k {
		case "id":
			r.id, err = d.ReadInt64()
		case "name":
			r.name, err = d.ReadString()
		case "opt":
			r.opt, err = d.ReadNillableBool()
		case "list":
			r.list, err = msgpack.ReadSlice(d, msgpack.Reader.ReadString)
		default:
			err = d.Skip()
		}
		if err != nil {
			return err
		}
	}
	return nil
}

func drawRec() *rec {
	r := &rec{id: sv.I64("id"), name: sv.String("name", 40)}
	if sv.Bool("opt") {
		x := sv.Bool("optv")
		r.opt = &x
	}
	for i := sv.Choose("list", 3); i > 0; i-- {
		r.list = append(r.list, sv.String("item", 3))
	}
	return r
}

const nLists = 15

// list is a collection of n elements of one of the types the generic writer lists.
func list(kind, n int, u uint64, s string) any {
	switch kind {
	case 0:
		v := make([]any, n)
		for i := range v {
			v[i] = u
		}
		return v
	case 1:
		v := make([]string, n)
		for i := range v {
			v[i] = s
		}
		return v
	case 2:
		v := make([]time.Time, n)
		for i := range v {
			v[i] = time.Unix(int64(u>>20), int64(u&0xfffff))
		}
		return v
	case 3:
		v := make([]bool, n)
		for i := range v {
			v[i] = u&1 == 1
		}
		return v
	case 4:
		v := make([]int, n)
		for i := range v {
			v[i] = int(u)
		}
		return v
	case 5:
		v := make([]int8, n)
		for i := range v {
			v[i] = int8(u)
		}
		return v
	case 6:
		v := make([]int16, n)
		for i := range v {
			v[i] = int16(u)
		}
		return v
	case 7:
		v := make([]int32, n)
		for i := range v {
			v[i] = int32(u)
		}
		return v
	case 8:
		v := make([]int64, n)
		for i := range v {
			v[i] = int64(u)
		}
		return v
	case 9:
		v := make([]uint, n)
		for i := range v {
			v[i] = uint(u)
		}
		return v
	case 10:
		v := make([]uint16, n)
		for i := range v {
			v[i] = uint16(u)
		}
		return v
	case 11:
		v := make([]uint32, n)
		for i := range v {
			v[i] = uint32(u)
		}
		return v
	case 12:
		v := make([]uint64, n)
		for i := range v {
			v[i] = u
		}
		return v
	case 13:
		return make([]byte, n)
	}
	return make([]any, n) // of nil
}

const nMaps = 13

// table is a map with n keys of one of the types the generic writer lists.
func table(kind, n int, u uint64, val any, s string) any {
	switch kind {
	case 0:
		m := map[string]string{}
		for i := 0; i < n; i++ {
			m[keyName(i)] = s
		}
		return m
	case 1:
		m := map[string]any{}
		for i := 0; i < n; i++ {
			m[keyName(i)] = val
		}
		return m
	case 2:
		m := map[int]any{}
		for i := 0; i < n; i++ {
			m[int(u)+i] = val
		}
		return m
	case 3:
		m := map[int8]any{}
		for i := 0; i < n; i++ {
			m[int8(u)+int8(i)] = val
		}
		return m
	case 4:
		m := map[int16]any{}
		for i := 0; i < n; i++ {
			m[int16(u)+int16(i)] = val
		}
		return m
	case 5:
		m := map[int32]any{}
		for i := 0; i < n; i++ {
			m[int32(u)+int32(i)] = val
		}
		return m
	case 6:
		m := map[int64]any{}
		for i := 0; i < n; i++ {
			m[int64(u)+int64(i)] = val
		}
		return m
	case 7:
		m := map[uint]any{}
		for i := 0; i < n; i++ {
			m[uint(u)+uint(i)] = val
		}
		return m
	case 8:
		m := map[uint8]any{}
		for i := 0; i < n; i++ {
			m[uint8(u)+uint8(i)] = val
		}
		return m
	case 9:
		m := map[uint16]any{}
		for i := 0; i < n; i++ {
			m[uint16(u)+uint16(i)] = val
		}
		return m
	case 10:
		m := map[uint32]any{}
		for i := 0; i < n; i++ {
			m[uint32(u)+uint32(i)] = val
		}
		return m
	case 11:
		m := map[uint64]any{}
		for i := 0; i < n; i++ {
			m[u+uint64(i)] = val
		}
		return m
	}
	m := map[any]any{}
	for i := 0; i < n; i++ {
		m[u+uint64(i)] = val
	}
	return m
}

func keyName(i int) string { return string([]byte{'k', byte('a' + i/26), byte('a' + i%26)}) }

// SizeAny checks the size computed for generic collections.
//
//sv:harness prop=C11 time=120
//sv:bound 15 list and 13 map types; lists of 0 to 2 and 16 elements (65536 in the thorough tier), maps of 0 to 2 and 16 keys; any integer, any short string as element
func SizeAny() {
	u := sv.U64("u")
	var v any
	if sv.Bool("map") {
		k := sv.Choose("kind", nMaps)
		n := []int{0, 1, 2, 16}[sv.Choose("n", 4)]
		if n > 2 {
			u = 7
		}
		v = table(k, n, u, int16(-3), "v")
	} else {
		sizes := []int{0, 1, 2, 16, 65536}
		ns := 4
		if sv.Deep() {
			ns = 5
		}
		k := sv.Choose("kind", nLists)
		n := sizes[sv.Choose("n", ns)]
		if n > 2 {
			u = 300
		}
		v = list(k, n, u, "text")
	}
	b := exact(func(w msgpack.Writer) { w.WriteAny(v) }, "any")
	h, err := msgpack.AnyToBytes(v)
	sv.Assert(err == nil && len(h) == len(b), "helper")
	sv.Reach("done")
}

// SizeCodec checks the size computed for a generated codec, alone and inside generic values.
//
//sv:harness prop=C11
//sv:bound one codec type with integer, text (up to 40 bytes), optional and list (up to 2) fields
func SizeCodec() {
	r := drawRec()
	b, err := msgpack.ToBytes(r)
	sv.Assert(err == nil, "err")
	b2 := exact(func(w msgpack.Writer) { w.WriteAny(r) }, "any")
	sv.SameBytes(b, b2, "generic")
	b3 := exact(func(w msgpack.Writer) { w.WriteAny([]any{r}) }, "nested")
	sv.SameBytes(b3[1:], b, "nested-bytes")
	d := msgpack.NewDecoder(marked(b))
	var got rec
	sv.Assert(got.Decode(&d) == nil, "decode")
	atMark(&d, "consumed")
	sv.Reach("done")
}
