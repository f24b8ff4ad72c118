package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) term(v Value) *Term {
	switch t := v.(type) {
	case *Term:
		return t
	case Poison:
		in.unsupported("poison: " + t.why)
	}
	in.unsupported(fmt.Sprintf("expected scalar, got %T", v))
	return nil
}

// idx64 widens an integer value of type t to 64 bits.
func (in *Interp) idx64(v Value, t types.Type) *Term {
	x := in.term(v)
	if x.W == 64 {
		return x
	}
	if isSigned(t) {
		return in.ts.SExt(x, 64)
	}
	return in.ts.ZExt(x, 64)
}

func (in *Interp) load(fr *frame, v Value, t types.Type) Value {
	p, ok := v.(Ptr)
	if !ok {
		if po, ok := v.(Poison); ok {
			return po
		}
		in.unsupported(fmt.Sprintf("load through %T", v))
	}
	switch {
	case p.raw != nil:
		in.wild(fr)
	case p.hdr != 0:
		return in.loadHdr(p)
	case p.bo != nil:
		if p.an > 0 {
			return ByteArr{p.bo.node, p.off, p.an - 1}
		}
		return in.loadBytesAs(p, t)
	case p.arr != nil:
		if at, ok := under(t).(*types.Array); ok {
			e := make([]Value, at.Len())
			for i := range e {
				e[i] = in.loadCell(in.arrCell(p.arr, p.ai+i))
			}
			return &ArrVal{e}
		}
		return in.loadCell(in.arrCell(p.arr, p.ai))
	case p.c == nil:
		in.nilDeref(fr, "load")
	}
	c := p.c
	in.access(fr, c, false)
	if c.glob != nil && in.tol == 0 {
		if po, ok := c.v.(Poison); ok {
			return po
		}
	}
	if t != nil && !sameKind(c.t, t) {
		return in.pun(c, t)
	}
	return in.loadCell(c)
}

func (in *Interp) loadBytesAs(p Ptr, t types.Type) Value {
	if t != nil {
		if b, ok := under(t).(*types.Basic); ok {
			w := widthOf(b)
			if w > 8 { // little endian
				var r *Term
				for i := 0; i < w/8; i++ {
					x := in.ts.ZExt(in.bRead(p.bo.node, in.ts.AddK(p.off, uint64(i))), w)
					x = in.ts.Shl(x, in.ts.Const(uint64(8*i), w))
					if r == nil {
						r = x
					} else {
						r = in.ts.BOr(r, x)
					}
				}
				return r
			}
		}
	}
	return in.bRead(p.bo.node, p.off)
}

// sameKind reports whether a cell of type a can be accessed as b without punning.
func sameKind(a, b types.Type) bool {
	if a == b {
		return true
	}
	ua, ub := under(a), under(b)
	switch x := ua.(type) {
	case *types.Basic:
		y, ok := ub.(*types.Basic)
		if !ok {
			return false
		}
		if x.Info()&types.IsString != 0 || y.Info()&types.IsString != 0 {
			return x.Info()&types.IsString != 0 && y.Info()&types.IsString != 0
		}
		if x.Kind() == types.UnsafePointer || y.Kind() == types.UnsafePointer {
			return x.Kind() == y.Kind()
		}
		return widthOf(x) == widthOf(y)
	case *types.Slice:
		_, ok := ub.(*types.Slice)
		return ok
	case *types.Struct:
		y, ok := ub.(*types.Struct)
		return ok && x.NumFields() == y.NumFields()
	case *types.Array:
		_, ok := ub.(*types.Array)
		return ok
	case *types.Pointer:
		switch y := ub.(type) {
		case *types.Pointer:
			return true
		case *types.Basic:
			return y.Kind() == types.UnsafePointer
		}
		return false
	}
	return true
}

// pun reads the memory of c as a value of a different type.
func (in *Interp) pun(c *Cell, t types.Type) Value {
	ut := under(t)
	switch {
	case isString(t):
		if s, ok := c.v.(Slice); ok {
			return in.sliceStr(s, true)
		}
		if len(c.f) >= 2 { // header struct
			return in.hdrStr(c)
		}
	}
	switch ut := ut.(type) {
	case *types.Slice:
		if len(c.f) == 3 || len(c.f) == 2 {
			data := in.ptrAt(in.term(c.f[0].v))
			ln := in.term(c.f[1].v)
			cp := ln
			if len(c.f) == 3 {
				cp = in.term(c.f[2].v)
			}
			return in.mkSlice(data, ln, cp, ut.Elem())
		}
		if s, ok := c.v.(Str); ok {
			_ = s
		}
	case *types.Struct:
		if len(c.f) > 0 && sameKind(c.f[0].t, t) {
			return in.loadCell(c.f[0])
		}
	case *types.Basic:
		if tv, ok := c.v.(*Term); ok && widthOf(ut) == tv.W {
			return tv
		}
		if p, ok := c.v.(Ptr); ok && widthOf(ut) == 64 {
			return in.addrOf(p)
		}
	}
	if len(c.f) > 0 {
		return in.pun(c.f[0], t)
	}
	in.unsupported("type punning " + c.t.String() + " as " + t.String())
	return nil
}

func (in *Interp) mkSlice(data Ptr, ln, cp *Term, elem types.Type) Value {
	if data.isNil() {
		return Slice{off: in.z64, len: ln, cap: cp, elem: elem, isnil: true}
	}
	if data.bo != nil {
		return Slice{bo: data.bo, off: data.off, len: ln, cap: cp, elem: elem}
	}
	if data.arr != nil {
		return Slice{arr: data.arr, off: in.k64(data.ai), len: ln, cap: cp, elem: elem}
	}
	if data.c != nil && data.c.bo != nil {
		return Slice{bo: data.c.bo, off: in.z64, len: ln, cap: cp, elem: elem}
	}
	in.unsupported("slice from pointer")
	return nil
}

func (in *Interp) hdrStr(c *Cell) Value {
	data := in.ptrAt(in.term(c.f[0].v))
	ln := in.term(c.f[1].v)
	if data.isNil() {
		return Str{node: zeroNode, off: in.z64, len: ln}
	}
	if data.bo != nil {
		return Str{live: data.bo, off: data.off, len: ln}
	}
	in.unsupported("string header data")
	return nil
}

func (in *Interp) sliceStr(s Slice, live bool) Str {
	if s.bo == nil {
		return Str{node: zeroNode, off: in.z64, len: s.len}
	}
	if live {
		return Str{live: s.bo, off: s.off, len: s.len}
	}
	return Str{node: s.bo.node, off: s.off, len: s.len}
}

func (in *Interp) loadHdr(p Ptr) Value {
	switch x := p.c.v.(type) {
	case Slice:
		switch p.hdr {
		case 1:
			if x.bo == nil && x.arr == nil {
				return in.z64
			}
			if x.bo != nil {
				return in.addrOf(Ptr{bo: x.bo, off: x.off})
			}
			return in.addrOf(Ptr{arr: x.arr, ai: int(in.conc(x.off))})
		case 2:
			return x.len
		}
		return x.cap
	case Str:
		switch p.hdr {
		case 1:
			if x.live == nil {
				if x.len == in.z64 {
					return in.z64
				}
				// give the immutable string an object (writes through it are not modelled)
				key := strKey{x.node}
				bo, _ := in.side[key].(*ByteObj)
				if bo == nil {
					bo = &ByteObj{node: x.node, n: nil}
					in.side[key] = bo
				}
				return in.addrOf(Ptr{bo: bo, off: x.off})
			}
			return in.addrOf(Ptr{bo: x.live, off: x.off})
		case 2:
			return x.len
		}
	}
	in.unsupported("header access")
	return nil
}

type strKey struct{ n *BNode }

func (in *Interp) wild(fr *frame) {
	in.violate(fr, "panic", "wild-pointer", "dereference of an address that denotes no live object")
}

func (in *Interp) store(fr *frame, pv Value, v Value, t types.Type) {
	p, ok := pv.(Ptr)
	if !ok {
		if _, isP := pv.(Poison); isP && in.tol > 0 {
			return
		}
		in.unsupported(fmt.Sprintf("store through %T", pv))
	}
	switch {
	case p.raw != nil:
		in.wild(fr)
	case p.hdr != 0:
		in.unsupported("store to header")
	case p.bo != nil:
		if p.an > 0 {
			ba := v.(ByteArr)
			in.bCopyInto(p.bo, p.off, in.k64(ba.n), ba.node, ba.off)
			return
		}
		x := in.term(v)
		if x.W > 8 {
			for i := 0; i < x.W/8; i++ {
				in.bStoreAt(p.bo, in.ts.AddK(p.off, uint64(i)), in.ts.Extract(x, 8*i, 8))
			}
			return
		}
		if x.W == 0 {
			x = in.ts.Ite(x, in.ts.Const(1, 8), in.ts.Const(0, 8))
		}
		in.bStoreAt(p.bo, p.off, x)
		return
	case p.arr != nil:
		if av, ok := v.(*ArrVal); ok {
			for i := range av.e {
				in.storeCell(in.arrCell(p.arr, p.ai+i), av.e[i])
			}
			return
		}
		in.storeCell(in.arrCell(p.arr, p.ai), v)
		return
	case p.c == nil:
		in.nilDeref(fr, "store")
	}
	in.access(fr, p.c, true)
	in.storeCell(p.c, v)
}

// visit executes one instruction; it reports whether control left the block.
func (in *Interp) visit(fr *frame, instr ssa.Instruction) bool {
	switch i := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(i, in.unop(fr, i))
	case *ssa.BinOp:
		fr.set(i, in.binop(fr, i.Op, i.X.Type(), fr.get(i.X), fr.get(i.Y), i.Y.Type()))
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			args := make([]Value, len(i.Call.Args))
			for k, a := range i.Call.Args {
				args[k] = fr.get(a)
			}
			fr.set(i, in.builtin(fr, b, args, &i.Call))
			break
		}
		fv, args := in.callCommon(fr, &i.Call)
		if p, ok := fv.(Poison); ok {
			if in.tol > 0 {
				fr.set(i, p)
				break
			}
			in.unsupported("call of poison " + p.why)
		}
		r := in.call(fr, fv, args)
		fr.set(i, r)
	case *ssa.ChangeInterface:
		fr.set(i, fr.get(i.X))
	case *ssa.ChangeType:
		fr.set(i, fr.get(i.X))
	case *ssa.Convert:
		fr.set(i, in.convert(fr, i.Type(), i.X.Type(), fr.get(i.X)))
	case *ssa.MultiConvert:
		fr.set(i, in.convert(fr, i.Type(), i.X.Type(), fr.get(i.X)))
	case *ssa.SliceToArrayPointer:
		fr.set(i, in.sliceToArrPtr(fr, i))
	case *ssa.MakeInterface:
		v := fr.get(i.X)
		fr.set(i, Iface{i.X.Type(), v})
	case *ssa.Extract:
		tv := fr.get(i.Tuple)
		switch t := tv.(type) {
		case Tuple:
			fr.set(i, t[i.Index])
		case Poison:
			fr.set(i, t)
		default:
			in.unsupported(fmt.Sprintf("extract from %T", tv))
		}
	case *ssa.Slice:
		fr.set(i, in.slice(fr, i))
	case *ssa.Return:
		switch len(i.Results) {
		case 0:
			fr.result = nil
		case 1:
			fr.result = fr.get(i.Results[0])
		default:
			res := make(Tuple, len(i.Results))
			for k, r := range i.Results {
				res[k] = fr.get(r)
			}
			fr.result = res
		}
		fr.block = nil
		return true
	case *ssa.RunDefers:
		in.runDefers(fr)
	case *ssa.Panic:
		v := fr.get(i.X)
		ifc, _ := v.(Iface)
		panic(&goPanic{v: ifc, kind: "explicit", where: in.where(fr), fn: in.repoFn(fr)})
	case *ssa.Send:
		in.chanSend(fr, fr.get(i.Chan), fr.get(i.X))
	case *ssa.Store:
		in.store(fr, fr.get(i.Addr), fr.get(i.Val), i.Val.Type())
	case *ssa.If:
		cv := fr.get(i.Cond)
		s := 1
		if in.decide(in.term(cv)) {
			s = 0
		}
		fr.prev, fr.block = fr.block, fr.block.Succs[s]
		return true
	case *ssa.Jump:
		fr.prev, fr.block = fr.block, fr.block.Succs[0]
		return true
	case *ssa.Defer:
		fv, args := in.callCommon(fr, &i.Call)
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			fv = b
		}
		df := fr
		if i.DeferStack != nil {
			if h, ok := fr.get(i.DeferStack).(*deferStack); ok {
				df = h.fr
			}
		}
		df.defers = append(df.defers, &deferred{fv, args, i})
	case *ssa.Go:
		fv, args := in.callCommon(fr, &i.Call)
		if b, ok := i.Call.Value.(*ssa.Builtin); ok {
			fv = b
		}
		in.spawn(fr, fv, args)
	case *ssa.MakeChan:
		n := in.conc(in.idx64(fr.get(i.Size), i.Size.Type()))
		fr.set(i, &ChanObj{cap: int(n), elem: under(i.Type()).(*types.Chan).Elem()})
	case *ssa.Alloc:
		fr.set(i, Ptr{c: in.newCell(i.Type().Underlying().(*types.Pointer).Elem())})
	case *ssa.MakeSlice:
		fr.set(i, in.makeSlice(fr, under(i.Type()).(*types.Slice).Elem(), in.idx64(fr.get(i.Len), i.Len.Type()), in.idx64(fr.get(i.Cap), i.Cap.Type())))
	case *ssa.MakeMap:
		mt := under(i.Type()).(*types.Map)
		if i.Reserve != nil {
			n := in.idx64(fr.get(i.Reserve), i.Reserve.Type())
			per := uint64(sizes.Sizeof(mt.Key()) + sizes.Sizeof(mt.Elem()))
			// a negative or huge hint is ignored by the runtime
			ok := in.ts.Slt(n, in.k64(1<<40))
			pos := in.ts.And(ok, in.ts.Sle(in.z64, n))
			in.account(fr, in.ts.Ite(pos, in.ts.Mul(n, in.ts.Const(per, 64)), in.z64))
		}
		fr.set(i, &MapObj{kt: mt.Key(), vt: mt.Elem()})
	case *ssa.Range:
		x := fr.get(i.X)
		switch m := x.(type) {
		case *MapObj:
			it := &MapIter{m: m}
			if m != nil {
				for _, e := range m.ents {
					if !e.dead {
						it.todo = append(it.todo, e)
					}
				}
			}
			fr.set(i, it)
		case Str:
			fr.set(i, &StrIter{s: m, pos: in.z64})
		default:
			in.unsupported(fmt.Sprintf("range over %T", x))
		}
	case *ssa.Next:
		fr.set(i, in.next(fr, i))
	case *ssa.FieldAddr:
		fr.set(i, in.fieldAddr(fr, i))
	case *ssa.Field:
		x := fr.get(i.X)
		switch sv := x.(type) {
		case *StructVal:
			fr.set(i, sv.f[i.Field])
		case Poison:
			fr.set(i, sv)
		default:
			in.unsupported(fmt.Sprintf("field of %T", x))
		}
	case *ssa.IndexAddr:
		fr.set(i, in.indexAddr(fr, i))
	case *ssa.Index:
		fr.set(i, in.index(fr, i))
	case *ssa.Lookup:
		fr.set(i, in.lookup(fr, i))
	case *ssa.MapUpdate:
		in.mapUpdate(fr, fr.get(i.Map), fr.get(i.Key), fr.get(i.Value))
	case *ssa.TypeAssert:
		fr.set(i, in.typeAssert(fr, i))
	case *ssa.MakeClosure:
		var b []Value
		for _, x := range i.Bindings {
			b = append(b, fr.get(x))
		}
		fr.set(i, &Closure{fn: i.Fn.(*ssa.Function), binds: b})
	case *ssa.Select:
		fr.set(i, in.sel(fr, i))
	default:
		in.unsupported(fmt.Sprintf("instruction %T", instr))
	}
	return false
}

type deferStack struct{ fr *frame }

func (in *Interp) fieldAddr(fr *frame, i *ssa.FieldAddr) Value {
	x := fr.get(i.X)
	p, ok := x.(Ptr)
	if !ok {
		if po, ok := x.(Poison); ok {
			return po
		}
		in.unsupported(fmt.Sprintf("fieldaddr of %T", x))
	}
	switch {
	case p.raw != nil:
		in.wild(fr)
	case p.isNil():
		in.nilDeref(fr, "field of nil")
	case p.arr != nil:
		p = Ptr{c: in.arrCell(p.arr, p.ai)}
	case p.bo != nil:
		in.unsupported("field of bytes")
	}
	c := p.c
	if c.f == nil {
		switch c.v.(type) {
		case Slice, Str:
			return Ptr{c: c, hdr: i.Field + 1}
		}
		if po, ok := c.v.(Poison); ok {
			return po
		}
	}
	if i.Field >= len(c.f) {
		in.unsupported("field address through punned pointer " + c.t.String())
	}
	// embedded struct punning: first field chain
	st := under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Struct)
	if st.NumFields() != len(c.f) {
		if len(c.f) > 0 && len(c.f[0].f) == st.NumFields() {
			return Ptr{c: c.f[0].f[i.Field]}
		}
		in.unsupported("field address through punned pointer " + c.t.String())
	}
	return Ptr{c: c.f[i.Field]}
}

func (in *Interp) oob(fr *frame, idx, n *Term) {
	if in.decide(in.ts.Not(in.ts.Ult(idx, n))) {
		in.runtimePanic(fr, "index", "index out of range")
	}
}

func (in *Interp) indexAddr(fr *frame, i *ssa.IndexAddr) Value {
	idx := in.idx64(fr.get(i.Index), i.Index.Type())
	x := fr.get(i.X)
	switch v := x.(type) {
	case Slice:
		in.oob(fr, idx, v.len)
		if v.bo != nil {
			return Ptr{bo: v.bo, off: in.ts.Add(v.off, idx)}
		}
		if v.arr == nil {
			in.unsupported("index of nil slice")
		}
		return Ptr{c: in.arrCell(v.arr, int(in.conc(in.ts.Add(v.off, idx))))}
	case Ptr:
		switch {
		case v.raw != nil:
			in.wild(fr)
		case v.isNil():
			in.nilDeref(fr, "index of nil array pointer")
		case v.bo != nil:
			in.oob(fr, idx, in.k64(v.an-1))
			return Ptr{bo: v.bo, off: in.ts.Add(v.off, idx)}
		case v.arr != nil:
			at := under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array)
			in.oob(fr, idx, in.k64(int(at.Len())))
			return Ptr{c: in.arrCell(v.arr, v.ai+int(in.conc(idx)))}
		case v.c.bo != nil:
			in.oob(fr, idx, v.c.bo.n)
			return Ptr{bo: v.c.bo, off: idx}
		case v.c.arr != nil:
			in.oob(fr, idx, v.c.arr.n)
			return Ptr{c: in.arrCell(v.c.arr, int(in.conc(idx)))}
		}
		if po, ok := v.c.v.(Poison); ok {
			return po
		}
	case Poison:
		return v
	}
	in.unsupported(fmt.Sprintf("indexaddr of %T", x))
	return nil
}

func (in *Interp) index(fr *frame, i *ssa.Index) Value {
	idx := in.idx64(fr.get(i.Index), i.Index.Type())
	x := fr.get(i.X)
	switch v := x.(type) {
	case Str:
		in.oob(fr, idx, v.len)
		return in.bRead(v.nd(), in.ts.Add(v.off, idx))
	case ByteArr:
		in.oob(fr, idx, in.k64(v.n))
		return in.bRead(v.node, in.ts.Add(v.off, idx))
	case *ArrVal:
		in.oob(fr, idx, in.k64(len(v.e)))
		if idx.Op != OConst {
			// scalar elements: ite chain
			if _, ok := v.e[0].(*Term); ok {
				r := v.e[len(v.e)-1].(*Term)
				for k := len(v.e) - 2; k >= 0; k-- {
					r = in.ts.Ite(in.ts.Eq(idx, in.k64(k)), v.e[k].(*Term), r)
				}
				return r
			}
		}
		return v.e[in.conc(idx)]
	}
	in.unsupported(fmt.Sprintf("index of %T", x))
	return nil
}

func (in *Interp) sliceToArrPtr(fr *frame, i *ssa.SliceToArrayPointer) Value {
	s, ok := fr.get(i.X).(Slice)
	if !ok {
		in.unsupported("slice to array of non-slice")
	}
	n := under(under(i.Type()).(*types.Pointer).Elem()).(*types.Array).Len()
	if in.decide(in.ts.Ult(s.len, in.k64(int(n)))) {
		in.runtimePanic(fr, "index", "cannot convert slice to array or pointer to array")
	}
	if s.isnil {
		return Ptr{}
	}
	if s.bo != nil {
		return Ptr{bo: s.bo, off: s.off, an: int(n) + 1}
	}
	return Ptr{arr: s.arr, ai: int(in.conc(s.off))}
}

func (in *Interp) makeSlice(fr *frame, elem types.Type, ln, cp *Term) Value {
	es := uint64(sizes.Sizeof(elem))
	max := uint64(1) << 47
	if es > 1 {
		max /= es
	}
	s := in.ts
	if in.decide(s.Not(s.Ule(ln, s.Const(max, 64)))) {
		in.runtimePanic(fr, "makeslice", "makeslice: len out of range")
	}
	if ln != cp {
		if in.decide(s.Not(s.And(s.Ule(cp, s.Const(max, 64)), s.Ule(ln, cp)))) {
			in.runtimePanic(fr, "makeslice", "makeslice: cap out of range")
		}
	}
	in.account(fr, s.Mul(cp, s.Const(es, 64)))
	return in.newSlice(elem, ln, cp)
}

func (in *Interp) newSlice(elem types.Type, ln, cp *Term) Slice {
	sl := Slice{off: in.z64, len: ln, cap: cp, elem: elem}
	if isByteElem(elem) {
		sl.bo = &ByteObj{node: zeroNode, n: cp, elem: elem}
	} else {
		sl.arr = &Arr{elem: elem, n: cp}
	}
	return sl
}

// account adds n bytes to the running allocation total and checks the limit set by the harness.
func (in *Interp) account(fr *frame, n *Term) {
	if in.allocL == nil || in.tol > 0 {
		return
	}
	in.allocs = in.ts.Add(in.allocs, n)
	over := in.ts.Not(in.ts.Ule(in.allocs, in.allocL))
	if over == in.ts.False {
		return
	}
	if in.decide(over) {
		in.violate(fr, "alloc", "allocation", "allocates more than the limit set by the harness")
	}
}

func (in *Interp) slice(fr *frame, i *ssa.Slice) Value {
	s := in.ts
	x := fr.get(i.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return in.idx64(fr.get(v), v.Type())
	}
	lo, hi, mx := opt(i.Low), opt(i.High), opt(i.Max)
	if lo == nil {
		lo = in.z64
	}
	bad := func(c *Term, msg string) {
		if in.decide(s.Not(c)) {
			in.runtimePanic(fr, "slice", "slice bounds out of range "+msg)
		}
	}
	switch v := x.(type) {
	case Str:
		if hi == nil {
			hi = v.len
		}
		bad(s.And(s.Ule(hi, v.len), s.Ule(lo, hi)), "")
		v.off = s.Add(v.off, lo)
		v.len = s.Sub(hi, lo)
		return v
	case Slice:
		if hi == nil {
			hi = v.len
		}
		c := v.cap
		if mx != nil {
			bad(s.And(s.Ule(mx, v.cap), s.Ule(hi, mx), s.Ule(lo, hi)), "")
			c = mx
		} else {
			bad(s.And(s.Ule(hi, v.cap), s.Ule(lo, hi)), "")
		}
		v.off = s.Add(v.off, lo)
		v.len = s.Sub(hi, lo)
		v.cap = s.Sub(c, lo)
		return v
	case Ptr:
		var sl Slice
		at, _ := under(under(i.X.Type()).(*types.Pointer).Elem()).(*types.Array)
		switch {
		case v.raw != nil:
			in.wild(fr)
		case v.isNil():
			in.nilDeref(fr, "slice of nil array")
		case v.bo != nil:
			n := in.k64(v.an - 1)
			sl = Slice{bo: v.bo, off: v.off, len: n, cap: n, elem: at.Elem()}
		case v.arr != nil:
			n := in.k64(int(at.Len()))
			sl = Slice{arr: v.arr, off: in.k64(v.ai), len: n, cap: n, elem: at.Elem()}
		case v.c.bo != nil:
			sl = Slice{bo: v.c.bo, off: in.z64, len: v.c.bo.n, cap: v.c.bo.n, elem: at.Elem()}
		case v.c.arr != nil:
			sl = Slice{arr: v.c.arr, off: in.z64, len: v.c.arr.n, cap: v.c.arr.n, elem: at.Elem()}
		default:
			in.unsupported("slice of pointer")
		}
		if hi == nil {
			hi = sl.len
		}
		c := sl.cap
		if mx != nil {
			bad(s.And(s.Ule(mx, sl.cap), s.Ule(hi, mx), s.Ule(lo, hi)), "")
			c = mx
		} else {
			bad(s.And(s.Ule(hi, sl.cap), s.Ule(lo, hi)), "")
		}
		sl.off = s.Add(sl.off, lo)
		sl.len = s.Sub(hi, lo)
		sl.cap = s.Sub(c, lo)
		return sl
	case Poison:
		return v
	}
	in.unsupported(fmt.Sprintf("slice of %T", x))
	return nil
}

func (in *Interp) unop(fr *frame, i *ssa.UnOp) Value {
	x := fr.get(i.X)
	switch i.Op {
	case token.MUL:
		return in.load(fr, x, i.Type())
	case token.ARROW:
		v, ok := in.chanRecv(fr, x, under(i.X.Type()).(*types.Chan).Elem())
		if i.CommaOk {
			return Tuple{v, in.ts.Bool(ok)}
		}
		return v
	}
	if p, ok := x.(Poison); ok {
		return p
	}
	t := in.term(x)
	switch i.Op {
	case token.NOT:
		return in.ts.Not(t)
	case token.SUB:
		if isFloat(i.Type()) {
			return in.ts.BXor(t, in.ts.Const(1<<uint(t.W-1), t.W))
		}
		return in.ts.Sub(in.ts.Const(0, t.W), t)
	case token.XOR:
		return in.ts.BNot(t)
	}
	in.unsupported("unop " + i.Op.String())
	return nil
}

func (in *Interp) binop(fr *frame, op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	s := in.ts
	if p, ok := x.(Poison); ok {
		return p
	}
	if p, ok := y.(Poison); ok {
		return p
	}
	switch op {
	case token.EQL:
		return in.eq(fr, t, x, yt, y)
	case token.NEQ:
		return s.Not(in.eq(fr, t, x, yt, y))
	}
	if isString(t) {
		a, b := x.(Str), y.(Str)
		switch op {
		case token.ADD:
			return in.concat(a, b)
		case token.LSS:
			return in.strLess(a, b, false)
		case token.LEQ:
			return in.strLess(a, b, true)
		case token.GTR:
			return in.strLess(b, a, false)
		case token.GEQ:
			return in.strLess(b, a, true)
		}
	}
	a, b := in.term(x), in.term(y)
	if isFloat(t) {
		switch op {
		case token.LSS:
			return in.fcmp(OFLt, a, b)
		case token.LEQ:
			return in.fcmp(OFLe, a, b)
		case token.GTR:
			return in.fcmp(OFLt, b, a)
		case token.GEQ:
			return in.fcmp(OFLe, b, a)
		}
		if a.Op == OConst && b.Op == OConst {
			if a.W == 32 {
				fa, fb := math.Float32frombits(uint32(a.K)), math.Float32frombits(uint32(b.K))
				var r float32
				switch op {
				case token.ADD:
					r = fa + fb
				case token.SUB:
					r = fa - fb
				case token.MUL:
					r = fa * fb
				case token.QUO:
					r = fa / fb
				}
				return s.Const(uint64(math.Float32bits(r)), 32)
			}
			fa, fb := math.Float64frombits(a.K), math.Float64frombits(b.K)
			var r float64
			switch op {
			case token.ADD:
				r = fa + fb
			case token.SUB:
				r = fa - fb
			case token.MUL:
				r = fa * fb
			case token.QUO:
				r = fa / fb
			}
			return s.Const(math.Float64bits(r), 64)
		}
		in.unsupported("symbolic float arithmetic")
	}
	sg := isSigned(t)
	switch op {
	case token.ADD:
		return s.Add(a, b)
	case token.SUB:
		return s.Sub(a, b)
	case token.MUL:
		return s.Mul(a, b)
	case token.QUO, token.REM:
		if in.decide(s.Eq(b, s.Const(0, b.W))) {
			in.runtimePanic(fr, "divide", "integer divide by zero")
		}
		switch {
		case op == token.QUO && sg:
			return s.SDiv(a, b)
		case op == token.QUO:
			return s.UDiv(a, b)
		case sg:
			return s.SRem(a, b)
		}
		return s.URem(a, b)
	case token.AND:
		if a.W == 0 {
			return s.And(a, b)
		}
		return s.BAnd(a, b)
	case token.OR:
		if a.W == 0 {
			return s.Or(a, b)
		}
		return s.BOr(a, b)
	case token.XOR:
		if a.W == 0 {
			return s.Not(s.Eq(a, b))
		}
		return s.BXor(a, b)
	case token.AND_NOT:
		return s.BAnd(a, s.BNot(b))
	case token.SHL, token.SHR:
		if isSigned(yt) {
			if in.decide(s.Slt(b, s.Const(0, b.W))) {
				in.runtimePanic(fr, "shift", "negative shift amount")
			}
		}
		var big *Term = s.False
		var c *Term
		if b.W > a.W {
			big = s.Not(s.Ult(b, s.Const(uint64(a.W), b.W)))
			c = s.Extract(b, 0, a.W)
		} else {
			c = s.ZExt(b, a.W)
		}
		if c.Op != OConst {
			// shift by a symbolic amount: pull constants out of ite
			if c.Op == OIte && c.A[1].IsConst() && c.A[2].IsConst() {
				f := func(k *Term) *Term {
					if op == token.SHL {
						return s.Shl(a, k)
					}
					if sg {
						return s.AShr(a, k)
					}
					return s.LShr(a, k)
				}
				r := s.Ite(c.A[0], f(c.A[1]), f(c.A[2]))
				if big == s.False {
					return r
				}
			}
		}
		if op == token.SHL {
			return s.Ite(big, s.Const(0, a.W), s.Shl(a, c))
		}
		if sg {
			return s.Ite(big, s.AShr(a, s.Const(uint64(a.W-1), a.W)), s.AShr(a, c))
		}
		return s.Ite(big, s.Const(0, a.W), s.LShr(a, c))
	case token.LSS:
		if sg {
			return s.Slt(a, b)
		}
		return s.Ult(a, b)
	case token.LEQ:
		if sg {
			return s.Sle(a, b)
		}
		return s.Ule(a, b)
	case token.GTR:
		if sg {
			return s.Slt(b, a)
		}
		return s.Ult(b, a)
	case token.GEQ:
		if sg {
			return s.Sle(b, a)
		}
		return s.Ule(b, a)
	}
	in.unsupported("binop " + op.String())
	return nil
}

func (in *Interp) fcmp(op Op, a, b *Term) *Term {
	if a.Op == OConst && b.Op == OConst {
		x, y := toF(a.K, a.W), toF(b.K, b.W)
		switch op {
		case OFLt:
			return in.ts.Bool(x < y)
		case OFLe:
			return in.ts.Bool(x <= y)
		}
		return in.ts.Bool(x == y)
	}
	return in.ts.raw(op, 0, a, b)
}

func (in *Interp) concat(a, b Str) Str {
	if a.len == in.z64 {
		return b
	}
	if b.len == in.z64 {
		return a
	}
	n := in.ts.Add(a.len, b.len)
	nd := &BNode{kind: bCopy, prev: zeroNode, dst: in.z64, n: a.len, src: a.nd(), srcOff: a.off}
	nd = &BNode{kind: bCopy, prev: nd, dst: a.len, n: b.len, src: b.nd(), srcOff: b.off}
	r := Str{node: nd, off: in.z64, len: n}
	if sa, ok := in.concStr(a); ok {
		if sb, ok := in.concStr(b); ok {
			return in.str(sa + sb)
		}
	}
	return r
}

// concStr returns the concrete contents of s if they are concrete.
func (in *Interp) concStr(s Str) (string, bool) {
	if s.len.Op != OConst || s.len.K > 1<<16 {
		return "", false
	}
	if nd := s.nd(); nd.kind == bConc && s.off.Op == OConst && s.off.K+s.len.K <= uint64(len(nd.data)) {
		return string(nd.data[s.off.K : s.off.K+s.len.K]), true
	}
	out := make([]byte, s.len.K)
	for i := range out {
		t := in.bRead(s.nd(), in.ts.AddK(s.off, uint64(i)))
		if t.Op != OConst {
			return "", false
		}
		out[i] = byte(t.K)
	}
	return string(out), true
}

func (in *Interp) strEq(a, b Str) *Term {
	if a.nd() == b.nd() && a.off == b.off && a.len == b.len {
		return in.ts.True
	}
	le := in.ts.Eq(a.len, b.len)
	if le == in.ts.False {
		return le
	}
	if a.len.Op != OConst && b.len.Op != OConst {
		if !in.decide(le) {
			return in.ts.False
		}
		in.conc(a.len)
	}
	n := a.len
	if n.Op != OConst {
		n = b.len
	}
	if n.Op != OConst {
		n = in.ts.Const(in.conc(a.len), 64)
	}
	if n.K > uint64(in.cfg.MaxCmp) {
		// compare concretely if possible
		if x, ok := in.concStr(a); ok {
			if y, ok := in.concStr(b); ok {
				return in.ts.Bool(x == y)
			}
		}
		in.limit("string comparison longer than the bound")
	}
	c := []*Term{le}
	for i := uint64(0); i < n.K; i++ {
		e := in.ts.Eq(in.bRead(a.nd(), in.ts.AddK(a.off, i)), in.bRead(b.nd(), in.ts.AddK(b.off, i)))
		if e == in.ts.False {
			return e
		}
		c = append(c, e)
	}
	return in.ts.And(c...)
}

func (in *Interp) strLess(a, b Str, orEq bool) *Term {
	na, nb := in.conc(a.len), in.conc(b.len)
	n := minu(na, nb)
	if n > uint64(in.cfg.MaxCmp) {
		in.limit("string comparison longer than the bound")
	}
	s := in.ts
	var r *Term
	if orEq {
		r = s.Bool(na <= nb)
	} else {
		r = s.Bool(na < nb)
	}
	for i := int(n) - 1; i >= 0; i-- {
		x := in.bRead(a.nd(), s.AddK(a.off, uint64(i)))
		y := in.bRead(b.nd(), s.AddK(b.off, uint64(i)))
		r = s.Or(s.Ult(x, y), s.And(s.Eq(x, y), r))
	}
	return r
}

func (in *Interp) ptrEq(a, b Ptr) *Term {
	s := in.ts
	norm := func(p Ptr) Ptr {
		if p.arr != nil {
			return Ptr{c: in.arrCell(p.arr, p.ai)}
		}
		if p.c != nil && p.c.bo != nil && p.hdr == 0 {
			return Ptr{bo: p.c.bo, off: in.z64}
		}
		return p
	}
	a, b = norm(a), norm(b)
	if a.raw != nil || b.raw != nil {
		return s.Eq(in.addrOf(a), in.addrOf(b))
	}
	if a.bo != nil && b.bo != nil {
		if a.bo != b.bo {
			return s.False
		}
		return s.Eq(a.off, b.off)
	}
	return s.Bool(a.c == b.c && a.bo == b.bo && a.hdr == b.hdr)
}

// eq compares two values for ==.
func (in *Interp) eq(fr *frame, t types.Type, x Value, yt types.Type, y Value) *Term {
	s := in.ts
	if yt != nil {
		_, xi := under(t).(*types.Interface)
		_, yi := under(yt).(*types.Interface)
		if xi && !yi {
			y = Iface{yt, y}
		} else if yi && !xi {
			x = Iface{t, x}
			t = yt
		}
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			in.unsupported("eq mixed")
		}
		if isFloat(t) {
			return in.fcmp(OFEq, a, b)
		}
		return s.Eq(a, b)
	case Str:
		return in.strEq(a, y.(Str))
	case Ptr:
		return in.ptrEq(a, y.(Ptr))
	case Slice:
		b := y.(Slice)
		if a.isnil || b.isnil {
			return s.Bool(a.isnil && b.isnil)
		}
		return s.False
	case *MapObj:
		b, _ := y.(*MapObj)
		return s.Bool(a == b)
	case *ChanObj:
		b, _ := y.(*ChanObj)
		return s.Bool(a == b)
	case *Closure:
		b, _ := y.(*Closure)
		return s.Bool((a == nil) == (b == nil))
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			in.unsupported("eq iface")
		}
		if a.t == nil || b.t == nil {
			return s.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return s.False
		}
		if !types.Comparable(a.t) {
			in.runtimePanic(fr, "uncomparable", "comparing uncomparable type "+a.t.String())
		}
		return in.eq(fr, a.t, a.v, nil, b.v)
	case *StructVal:
		b := y.(*StructVal)
		st, _ := under(t).(*types.Struct)
		var c []*Term
		for i := range a.f {
			if st != nil && st.Field(i).Name() == "_" {
				continue
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			e := in.eq(fr, ft, a.f[i], nil, b.f[i])
			if e == s.False {
				return e
			}
			c = append(c, e)
		}
		return s.And(c...)
	case ByteArr:
		b := y.(ByteArr)
		var c []*Term
		for i := 0; i < a.n; i++ {
			c = append(c, s.Eq(in.bRead(a.node, s.AddK(a.off, uint64(i))), in.bRead(b.node, s.AddK(b.off, uint64(i)))))
		}
		return s.And(c...)
	case *ArrVal:
		b := y.(*ArrVal)
		var c []*Term
		et := under(t).(*types.Array).Elem()
		for i := range a.e {
			c = append(c, in.eq(fr, et, a.e[i], nil, b.e[i]))
		}
		return s.And(c...)
	case *NatObj:
		b, _ := y.(*NatObj)
		return s.Bool(a == b)
	case Poison:
		in.unsupported("eq poison: " + a.why)
	}
	in.unsupported(fmt.Sprintf("eq of %T", x))
	return nil
}

func (in *Interp) convert(fr *frame, dt, st types.Type, v Value) Value {
	s := in.ts
	if p, ok := v.(Poison); ok {
		return p
	}
	ud, us := under(dt), under(st)
	if tp, ok := dt.(*types.TypeParam); ok {
		in.unsupported("convert to type parameter " + tp.String())
	}
	switch d := ud.(type) {
	case *types.Basic:
		if d.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				if isByteElem(x.elem) {
					return in.sliceStr(x, false)
				}
				return in.runesToStr(fr, x)
			case *Term:
				return in.runeToStr(fr, in.idx64(x, st))
			}
		}
		if d.Kind() == types.UnsafePointer {
			switch x := v.(type) {
			case Ptr:
				return x
			case *Term:
				p := in.ptrAt(x)
				if p.raw != nil && fr != nil && fr.info.repo {
					// the garbage collector may find it
					in.violate(fr, "wildptr", "wild-pointer", "an integer that denotes no live object becomes a pointer")
				}
				return p
			}
		}
		if p, ok := v.(Ptr); ok { // uintptr(unsafe.Pointer)
			return in.addrOf(p)
		}
		x := in.term(v)
		w := widthOf(d)
		sb, ok := us.(*types.Basic)
		if !ok {
			in.unsupported("convert from " + st.String())
		}
		df, sf := d.Info()&types.IsFloat != 0, sb.Info()&types.IsFloat != 0
		switch {
		case df && sf:
			if w == x.W {
				return x
			}
			if x.Op == OConst {
				if w == 32 {
					return s.Const(uint64(math.Float32bits(float32(math.Float64frombits(x.K)))), 32)
				}
				return s.Const(math.Float64bits(float64(math.Float32frombits(uint32(x.K)))), 64)
			}
			return s.raw(OFCvt, w, x)
		case df:
			if x.Op == OConst {
				var f float64
				if isSigned(st) {
					f = float64(sx(x.K, x.W))
					if w == 32 {
						return s.Const(uint64(math.Float32bits(float32(sx(x.K, x.W)))), 32)
					}
				} else {
					f = float64(x.K)
					if w == 32 {
						return s.Const(uint64(math.Float32bits(float32(x.K))), 32)
					}
				}
				return s.Const(math.Float64bits(f), 64)
			}
			in.unsupported("symbolic int to float")
		case sf:
			if x.Op == OConst {
				f := toF(x.K, x.W)
				if isSigned(dt) {
					return s.Const(uint64(int64(f)), w)
				}
				return s.Const(uint64(f), w)
			}
			in.unsupported("symbolic float to int")
		}
		if w <= x.W {
			return s.Extract(x, 0, w)
		}
		if isSigned(st) {
			return s.SExt(x, w)
		}
		return s.ZExt(x, w)
	case *types.Pointer:
		switch x := v.(type) {
		case Ptr:
			// unsafe.Pointer -> *T
			if x.bo != nil {
				if at, ok := under(d.Elem()).(*types.Array); ok && isByteElem(at.Elem()) {
					x.an = int(at.Len()) + 1
				}
			}
			return x
		case *Term:
			return in.ptrAt(x)
		}
	case *types.Slice:
		if x, ok := v.(Str); ok {
			if isByteElem(d.Elem()) {
				in.account(fr, x.len)
				if x.len == in.z64 {
					return in.newSlice(d.Elem(), in.z64, in.z64)
				}
				bo := &ByteObj{node: x.nd(), n: nil, elem: d.Elem()}
				return Slice{bo: bo, off: x.off, len: x.len, cap: x.len, elem: d.Elem()}
			}
			return in.strToRunes(fr, x, d.Elem())
		}
		return v
	case *types.Array:
		if x, ok := v.(Slice); ok { // slice to array
			if in.decide(s.Ult(x.len, in.k64(int(d.Len())))) {
				in.runtimePanic(fr, "index", "cannot convert slice to array")
			}
			if x.bo != nil {
				return ByteArr{x.bo.node, x.off, int(d.Len())}
			}
			e := make([]Value, d.Len())
			o := int(in.conc(x.off))
			for i := range e {
				e[i] = in.loadCell(in.arrCell(x.arr, o+i))
			}
			return &ArrVal{e}
		}
	}
	return v
}

func (in *Interp) runeToStr(fr *frame, t *Term) Value {
	if t.Op == OConst {
		return in.str(string(rune(int32(t.K))))
	}
	k := in.conc(t)
	return in.str(string(rune(int32(k))))
}

func (in *Interp) runesToStr(fr *frame, s Slice) Value {
	n := int(in.conc(s.len))
	o := 0
	if n > 0 {
		o = int(in.conc(s.off))
	}
	out := Str{node: zeroNode, off: in.z64, len: in.z64}
	for i := 0; i < n; i++ {
		r := in.runeToStr(fr, in.term(in.loadCell(in.arrCell(s.arr, o+i))))
		out = in.concat(out, r.(Str))
	}
	return out
}

func (in *Interp) strToRunes(fr *frame, x Str, elem types.Type) Value {
	cs, ok := in.concStr(x)
	if !ok {
		in.unsupported("symbolic string to runes")
	}
	rs := []rune(cs)
	sl := in.newSlice(elem, in.k64(len(rs)), in.k64(len(rs)))
	for i, r := range rs {
		in.storeCell(in.arrCell(sl.arr, i), in.ts.Const(uint64(r), 32))
	}
	return sl
}

func (in *Interp) implements(t types.Type, it *types.Interface, itT types.Type) bool {
	k := ikey{t, itT}
	if r, ok := in.impl[k]; ok {
		return r
	}
	r := types.Implements(t, it)
	in.impl[k] = r
	return r
}

func (in *Interp) typeAssert(fr *frame, i *ssa.TypeAssert) Value {
	x := fr.get(i.X)
	if p, ok := x.(Poison); ok {
		return p
	}
	ifc := x.(Iface)
	ok := false
	var v Value
	if it, isI := under(i.AssertedType).(*types.Interface); isI {
		if ifc.t != nil {
			if no, isN := ifc.v.(*NatObj); isN {
				ok = no.implements(it)
			} else {
				ok = in.implements(ifc.t, it, i.AssertedType)
			}
		}
		if ok {
			v = ifc
		}
	} else if ifc.t != nil && types.Identical(ifc.t, i.AssertedType) {
		ok = true
		v = ifc.v
	}
	if i.CommaOk {
		if !ok {
			v = in.zero(i.AssertedType)
		}
		return Tuple{v, in.ts.Bool(ok)}
	}
	if !ok {
		if in.tol > 0 {
			return Poison{"type assertion"}
		}
		in.runtimePanic(fr, "typeassert", "interface conversion: wrong dynamic type")
	}
	return v
}

func (in *Interp) next(fr *frame, i *ssa.Next) Value {
	s := in.ts
	switch it := fr.get(i.Iter).(type) {
	case *MapIter:
		for len(it.todo) > 0 {
			// drop entries deleted meanwhile
			live := it.todo[:0:0]
			for _, e := range it.todo {
				if !e.dead {
					live = append(live, e)
				}
			}
			it.todo = live
			if len(live) == 0 {
				break
			}
			k := 0
			if len(live) > 1 && len(it.m.ents) <= in.cfg.MaxMapOrder && in.tol == 0 && fr.info.repo {
				k = in.choose(len(live))
			}
			e := live[k]
			it.todo = append(append([]*MapEnt{}, live[:k]...), live[k+1:]...)
			return Tuple{s.True, e.k, e.v}
		}
		tt := i.Type().(*types.Tuple)
		return Tuple{s.False, in.zeroOrNil(tt.At(1).Type()), in.zeroOrNil(tt.At(2).Type())}
	case *StrIter:
		if in.decide(s.Not(s.Ult(it.pos, it.s.len))) {
			return Tuple{s.False, in.z64, s.Const(0, 32)}
		}
		pos := it.pos
		b0 := in.bRead(it.s.nd(), s.Add(it.s.off, pos))
		if in.decide(s.Ult(b0, s.Const(0x80, 8))) {
			it.pos = s.AddK(pos, 1)
			return Tuple{s.True, pos, s.ZExt(b0, 32)}
		}
		f := in.P.fn("unicode/utf8", "DecodeRuneInString")
		if f == nil {
			in.unsupported("range over non-ASCII string")
		}
		sub := it.s
		sub.off = s.Add(sub.off, pos)
		sub.len = s.Sub(sub.len, pos)
		r := in.callSSA(fr, f, []Value{sub}, nil).(Tuple)
		it.pos = s.Add(pos, in.term(r[1]))
		return Tuple{s.True, pos, r[0]}
	}
	in.unsupported("next")
	return nil
}

func (in *Interp) zeroOrNil(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return in.zero(t)
}

func (in *Interp) mapFind(fr *frame, m *MapObj, k Value) *MapEnt {
	if m == nil {
		in.hashable(fr, k)
		return nil
	}
	in.hashable(fr, k)
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if in.decide(in.eq(fr, m.kt, e.k, nil, k)) {
			return e
		}
	}
	return nil
}

func (in *Interp) hashable(fr *frame, k Value) {
	switch x := k.(type) {
	case Iface:
		if x.t != nil {
			if !types.Comparable(x.t) {
				in.runtimePanic(fr, "unhashable", "hash of unhashable type "+x.t.String())
			}
			in.hashable(fr, x.v)
		}
	case *StructVal:
		for _, f := range x.f {
			in.hashable(fr, f)
		}
	case *ArrVal:
		for _, f := range x.e {
			in.hashable(fr, f)
		}
	}
}

func (in *Interp) lookup(fr *frame, i *ssa.Lookup) Value {
	x := fr.get(i.X)
	switch m := x.(type) {
	case *MapObj:
		k := fr.get(i.Index)
		mt := under(i.X.Type()).(*types.Map)
		in.raceMap(fr, m, false)
		e := in.mapFind(fr, m, k)
		var v Value
		if e != nil {
			v = e.v
		} else {
			v = in.zero(mt.Elem())
		}
		if i.CommaOk {
			return Tuple{v, in.ts.Bool(e != nil)}
		}
		return v
	case Str:
		idx := in.idx64(fr.get(i.Index), i.Index.Type())
		in.oob(fr, idx, m.len)
		return in.bRead(m.nd(), in.ts.Add(m.off, idx))
	case Poison:
		return m
	}
	in.unsupported(fmt.Sprintf("lookup in %T", x))
	return nil
}

func (in *Interp) mapUpdate(fr *frame, mv, k, v Value) {
	m, ok := mv.(*MapObj)
	if !ok {
		if _, isP := mv.(Poison); isP && in.tol > 0 {
			return
		}
		in.unsupported("map update of non-map")
	}
	if m == nil {
		in.runtimePanic(fr, "nilmap", "assignment to entry in nil map")
	}
	in.raceMap(fr, m, true)
	if e := in.mapFind(fr, m, k); e != nil {
		e.v = v
		return
	}
	if in.tol == 0 {
		in.account(fr, in.k64(int(sizes.Sizeof(m.kt)+sizes.Sizeof(m.vt))))
	}
	m.ents = append(m.ents, &MapEnt{k: k, v: v})
}

func (m *MapObj) size() int {
	n := 0
	if m != nil {
		for _, e := range m.ents {
			if !e.dead {
				n++
			}
		}
	}
	return n
}
