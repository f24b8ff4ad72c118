package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic Go value. Concrete kinds:
//
//	*Term      bool, integers, floats as bits, uintptr
//	Ptr        pointers and unsafe.Pointer
//	Slice, Str, *StructVal, *ArrVal, ByteArr
//	Iface, *MapObj (nil allowed), *Closure (nil allowed), *ChanObj (nil allowed)
//	Tuple, *MapIter, *StrIter, Poison
type Value interface{}

type Poison struct{ why string }

type Tuple []Value

type StructVal struct{ f []Value }

type ArrVal struct{ e []Value }

// ByteArr is an array-of-bytes value.
type ByteArr struct {
	node *BNode
	off  *Term
	n    int
}

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
	nat   func(in *Interp, args []Value) Value // native closure
	name  string
}

// Cell is an addressable memory location.
type Cell struct {
	t    types.Type
	v    Value
	f    []*Cell
	arr  *Arr
	bo   *ByteObj
	addr uint64
	glob *ssa.Global
	acc  *accInfo
}

// Arr is backing storage of a non-byte array or slice.
type Arr struct {
	elem  types.Type
	cells []*Cell
	n     *Term
	addr  uint64
}

// ByteObj is backing storage of a byte array or slice.
type ByteObj struct {
	node *BNode
	n    *Term
	addr uint64
	elem types.Type
}

type Ptr struct {
	c   *Cell
	bo  *ByteObj // pointer to a byte (n<0) or to a byte array of length n-1 (an > 0)
	off *Term
	an  int
	arr *Arr // pointer to array view over arr (SliceToArrayPointer), or end-of-array data pointer
	ai  int
	hdr int // 1 Data, 2 Len, 3 Cap of the slice/string in c
	raw *Term
}

func (p Ptr) isNil() bool { return p.c == nil && p.bo == nil && p.arr == nil && p.raw == nil }

type Slice struct {
	arr           *Arr
	bo            *ByteObj
	off, len, cap *Term
	elem          types.Type
	isnil         bool
}

// Str is a string: a view of a byte chain. live is set for strings aliasing mutable memory.
type Str struct {
	node *BNode
	live *ByteObj
	off  *Term
	len  *Term
}

func (s Str) nd() *BNode {
	if s.live != nil {
		return s.live.node
	}
	return s.node
}

type MapObj struct {
	kt, vt types.Type
	ents   []*MapEnt
	addr   uint64
	nilmap bool
}

type MapEnt struct {
	k    Value
	v    Value
	dead bool
}

type MapIter struct {
	m    *MapObj
	todo []*MapEnt
}

type StrIter struct {
	s   Str
	pos *Term
}

// ---- byte chains ----

const (
	bZero = iota
	bConc
	bUF
	bStore
	bCopy
	bTab
)

// BNode is one version of a byte store; versions are immutable.
type BNode struct {
	kind   uint8
	data   []byte
	name   string
	prev   *BNode
	idx    *Term
	val    *Term
	dst, n *Term
	src    *BNode
	srcOff *Term
	tab    map[uint64]*Term
	nst    int
	memo   map[int]*Term
}

var zeroNode = &BNode{kind: bZero}

func (in *Interp) bRead(nd *BNode, idx *Term) *Term {
	s := in.ts
	// fast path for constants through plain chains
	for {
		switch nd.kind {
		case bZero:
			return s.Const(0, 8)
		case bConc:
			if idx.Op == OConst {
				if idx.K < uint64(len(nd.data)) {
					return s.Const(uint64(nd.data[idx.K]), 8)
				}
				return s.Const(0, 8)
			}
		case bUF:
			return s.Sel(nd.name, idx)
		case bTab:
			if idx.Op == OConst {
				if v, ok := nd.tab[idx.K]; ok {
					return v
				}
				nd = nd.prev
				continue
			}
		case bStore:
			e := s.Eq(nd.idx, idx)
			if e == s.True {
				return nd.val
			}
			if e == s.False {
				nd = nd.prev
				continue
			}
		case bCopy:
			d := s.Sub(idx, nd.dst)
			c := s.Ult(d, nd.n)
			if c == s.True {
				idx = s.Add(d, nd.srcOff)
				nd = nd.src
				continue
			}
			if c == s.False {
				nd = nd.prev
				continue
			}
		}
		break
	}
	if nd.memo == nil {
		nd.memo = map[int]*Term{}
	}
	if v, ok := nd.memo[idx.ID]; ok {
		return v
	}
	var r *Term
	switch nd.kind {
	case bConc:
		r = in.tabRead(nd.data, idx)
	case bTab:
		r = in.bRead(nd.prev, idx)
		for k, v := range nd.tab {
			_ = v
			if k < idx.Lo || k > idx.Hi {
				continue
			}
			r = nil
			break
		}
		if r == nil {
			r = in.bRead(nd.prev, idx)
			keys := sortedKeys(nd.tab)
			for _, k := range keys {
				e := s.Eq(idx, s.Const(k, 64))
				r = s.Ite(e, nd.tab[k], r)
			}
		}
	case bStore:
		e := s.Eq(nd.idx, idx)
		switch in.implied(e) {
		case 1:
			r = nd.val
		case -1:
			r = in.bRead(nd.prev, idx)
		default:
			r = s.Ite(e, nd.val, in.bRead(nd.prev, idx))
		}
	case bCopy:
		d := s.Sub(idx, nd.dst)
		c := s.Ult(d, nd.n)
		switch in.implied(c) {
		case 1:
			r = in.bRead(nd.src, s.Add(d, nd.srcOff))
		case -1:
			r = in.bRead(nd.prev, idx)
		default:
			r = s.Ite(c, in.bRead(nd.src, s.Add(d, nd.srcOff)), in.bRead(nd.prev, idx))
		}
	}
	nd.memo[idx.ID] = r
	return r
}

func sortedKeys(m map[uint64]*Term) []uint64 {
	out := make([]uint64, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

// tabRead reads concrete data at a symbolic index, merging runs of equal bytes.
func (in *Interp) tabRead(data []byte, idx *Term) *Term {
	s := in.ts
	if len(data) == 0 {
		return s.Const(0, 8)
	}
	lo, hi := idx.Lo, idx.Hi
	if lo >= uint64(len(data)) {
		return s.Const(0, 8)
	}
	if hi >= uint64(len(data)) {
		hi = uint64(len(data)) - 1
	}
	type run struct{ lo, hi uint64 }
	var runs []run
	for k := lo; k <= hi; {
		e := k
		for e < hi && data[e+1] == data[k] {
			e++
		}
		runs = append(runs, run{k, e})
		k = e + 1
	}
	r := s.Const(uint64(data[runs[len(runs)-1].lo]), 8)
	for k := len(runs) - 2; k >= 0; k-- {
		r = s.Ite(s.Ule(idx, s.Const(runs[k].hi, 64)), s.Const(uint64(data[runs[k].lo]), 8), r)
	}
	return r
}

func (in *Interp) bStoreAt(bo *ByteObj, idx, val *Term) {
	nd := bo.node
	if idx.Op == OConst {
		// compact runs of constant stores into a table
		n := 0
		p := nd
		for p.kind == bStore && p.idx.Op == OConst && n < 24 {
			p = p.prev
			n++
		}
		if n >= 24 {
			var tab map[uint64]*Term
			base := p
			if p.kind == bTab {
				tab = make(map[uint64]*Term, len(p.tab)+25)
				for k, v := range p.tab {
					tab[k] = v
				}
				base = p.prev
			} else {
				tab = map[uint64]*Term{}
			}
			var sts []*BNode
			for q := nd; q != p; q = q.prev {
				sts = append(sts, q)
			}
			for i := len(sts) - 1; i >= 0; i-- {
				tab[sts[i].idx.K] = sts[i].val
			}
			nd = &BNode{kind: bTab, prev: base, tab: tab}
		}
	}
	bo.node = &BNode{kind: bStore, prev: nd, idx: idx, val: val}
}

func (in *Interp) bCopyInto(bo *ByteObj, dst, n *Term, src *BNode, srcOff *Term) {
	if n.Op == OConst && n.K == 0 {
		return
	}
	if dst == srcOff && src == bo.node {
		return
	}
	if n.Op == OConst && n.K <= 2 {
		vals := make([]*Term, n.K)
		for i := range vals {
			vals[i] = in.bRead(src, in.ts.AddK(srcOff, uint64(i)))
		}
		for i := range vals {
			in.bStoreAt(bo, in.ts.AddK(dst, uint64(i)), vals[i])
		}
		return
	}
	if dst.Op == OConst && dst.K == 0 && bo.n != nil && n == bo.n && srcOff.Op == OConst && srcOff.K == 0 {
		bo.node = src
		return
	}
	bo.node = &BNode{kind: bCopy, prev: bo.node, dst: dst, n: n, src: src, srcOff: srcOff}
}

// ---- type helpers ----

func under(t types.Type) types.Type {
	return types.Unalias(t).Underlying()
}

func isByteElem(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && (b.Kind() == types.Uint8 || b.Kind() == types.Int8)
}

var sizes = types.SizesFor("gc", "amd64")

func widthOf(b *types.Basic) int {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.Float64, types.UntypedInt, types.UntypedFloat:
		return 64
	}
	return -1
}

func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) zero(t types.Type) Value {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return Ptr{}
		case u.Info()&types.IsString != 0:
			return Str{node: zeroNode, off: in.z64, len: in.z64}
		}
		w := widthOf(u)
		if w < 0 {
			if u.Info()&types.IsComplex != 0 {
				return Poison{"complex"}
			}
			in.unsupported("zero of " + t.String())
		}
		return in.ts.Const(0, w)
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{off: in.z64, len: in.z64, cap: in.z64, elem: u.Elem(), isnil: true}
	case *types.Struct:
		f := make([]Value, u.NumFields())
		for i := range f {
			f[i] = in.zero(u.Field(i).Type())
		}
		return &StructVal{f}
	case *types.Array:
		if isByteElem(u.Elem()) {
			return ByteArr{zeroNode, in.z64, int(u.Len())}
		}
		e := make([]Value, u.Len())
		for i := range e {
			e[i] = in.zero(u.Elem())
		}
		return &ArrVal{e}
	case *types.Interface:
		return Iface{}
	case *types.Map:
		return (*MapObj)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return (*ChanObj)(nil)
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = in.zero(u.At(i).Type())
		}
		return tu
	}
	in.unsupported("zero of " + t.String())
	return nil
}

// newCell allocates a zeroed location of type t.
func (in *Interp) newCell(t types.Type) *Cell {
	c := &Cell{t: t}
	switch u := under(t).(type) {
	case *types.Struct:
		c.f = make([]*Cell, u.NumFields())
		for i := range c.f {
			c.f[i] = in.newCell(u.Field(i).Type())
		}
	case *types.Array:
		if isByteElem(u.Elem()) {
			c.bo = &ByteObj{node: zeroNode, n: in.ts.Const(uint64(u.Len()), 64), elem: u.Elem()}
		} else {
			c.arr = &Arr{elem: u.Elem(), n: in.ts.Const(uint64(u.Len()), 64)}
		}
	default:
		c.v = in.zero(t)
	}
	return c
}

func (in *Interp) arrCell(a *Arr, i int) *Cell {
	for len(a.cells) <= i {
		a.cells = append(a.cells, nil)
	}
	if a.cells[i] == nil {
		a.cells[i] = in.newCell(a.elem)
	}
	return a.cells[i]
}

// loadCell reads the full value in c.
func (in *Interp) loadCell(c *Cell) Value {
	if c.f != nil {
		f := make([]Value, len(c.f))
		for i, x := range c.f {
			f[i] = in.loadCell(x)
		}
		return &StructVal{f}
	}
	if c.bo != nil {
		return ByteArr{c.bo.node, in.z64, int(c.bo.n.K)}
	}
	if c.arr != nil {
		e := make([]Value, c.arr.n.K)
		for i := range e {
			if i < len(c.arr.cells) && c.arr.cells[i] != nil {
				e[i] = in.loadCell(c.arr.cells[i])
			} else {
				e[i] = in.zero(c.arr.elem)
			}
		}
		return &ArrVal{e}
	}
	if c.v == nil { // zero-field struct
		if _, ok := under(c.t).(*types.Struct); ok {
			return &StructVal{}
		}
	}
	return c.v
}

func (in *Interp) storeCell(c *Cell, v Value) {
	if p, ok := v.(Poison); ok {
		in.poisonCell(c, p)
		return
	}
	if c.f != nil {
		sv, ok := v.(*StructVal)
		if !ok {
			in.unsupported("store of non-struct into struct")
		}
		for i, x := range c.f {
			in.storeCell(x, sv.f[i])
		}
		return
	}
	if c.bo != nil {
		ba, ok := v.(ByteArr)
		if !ok {
			in.unsupported("store of non-bytes into byte array")
		}
		if ba.off == in.z64 {
			c.bo.node = ba.node
		} else {
			c.bo.node = &BNode{kind: bCopy, prev: zeroNode, dst: in.z64, n: c.bo.n, src: ba.node, srcOff: ba.off}
		}
		return
	}
	if c.arr != nil {
		av, ok := v.(*ArrVal)
		if !ok {
			in.unsupported("store of non-array into array")
		}
		for i := range av.e {
			in.storeCell(in.arrCell(c.arr, i), av.e[i])
		}
		return
	}
	if sv, ok := v.(*StructVal); ok && len(sv.f) == 0 {
		return
	}
	c.v = v
}

func (in *Interp) poisonCell(c *Cell, p Poison) {
	if c.f != nil {
		for _, x := range c.f {
			in.poisonCell(x, p)
		}
		return
	}
	if c.bo != nil || c.arr != nil {
		return
	}
	c.v = p
}

// ---- addresses ----

func (in *Interp) newAddr(o interface{}) uint64 {
	in.naddr++
	a := uint64(in.naddr)<<36 + 1<<35
	in.addrs[in.naddr] = o
	return a
}

func (in *Interp) addrOf(p Ptr) *Term {
	s := in.ts
	switch {
	case p.isNil():
		return in.z64
	case p.raw != nil:
		return p.raw
	case p.bo != nil:
		if p.bo.addr == 0 {
			p.bo.addr = in.newAddr(p.bo)
		}
		return s.Add(s.Const(p.bo.addr, 64), p.off)
	case p.arr != nil:
		if p.arr.addr == 0 {
			p.arr.addr = in.newAddr(p.arr)
		}
		return s.Const(p.arr.addr+uint64(p.ai)*uint64(sizes.Sizeof(p.arr.elem)), 64)
	}
	if p.c.bo != nil {
		return in.addrOf(Ptr{bo: p.c.bo, off: in.z64})
	}
	if p.c.t != nil && sizes.Sizeof(p.c.t) == 0 {
		return s.Const(1<<35, 64) // every object without size has one address
	}
	if p.c.addr == 0 {
		p.c.addr = in.newAddr(p.c)
	}
	return s.Const(p.c.addr+uint64(p.hdr), 64)
}

// ptrAt turns an integer into a pointer.
func (in *Interp) ptrAt(t *Term) Ptr {
	s := in.ts
	if t.Op == OConst && t.K == 0 {
		return Ptr{}
	}
	k := t.K
	if t.Op == OConst || t.Op == OAdd {
		id := int(k >> 36)
		if o, ok := in.addrs[id]; ok && k != 0 {
			base := uint64(id)<<36 + 1<<35
			d := s.AddK(t, -base)
			switch x := o.(type) {
			case *ByteObj:
				return Ptr{bo: x, off: d}
			case *Cell:
				if d.Op == OConst && d.K == 0 {
					return Ptr{c: x}
				}
			case *Arr:
				if d.Op == OConst {
					es := uint64(sizes.Sizeof(x.elem))
					if es > 0 && d.K%es == 0 {
						return Ptr{c: in.arrCell(x, int(d.K/es))}
					}
				}
			}
		}
	}
	if t.Op == OConst {
		return Ptr{raw: t}
	}
	// symbolic: zero, one of the known cells, or wild
	if in.decide(s.Eq(t, in.z64)) {
		return Ptr{}
	}
	for id := 1; id <= in.naddr; id++ {
		if c, ok := in.addrs[id].(*Cell); ok {
			if in.decide(s.Eq(t, s.Const(c.addr, 64))) {
				return Ptr{c: c}
			}
		}
	}
	return Ptr{raw: t}
}
