package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, cc *ssa.CallCommon) Value {
	s := in.ts
	for _, a := range args {
		if p, ok := a.(Poison); ok && b.Name() != "ssa:wrapnilchk" {
			if in.tol > 0 {
				return p
			}
			in.unsupported("builtin on poison: " + p.why)
		}
	}
	switch b.Name() {
	case "append":
		return in.appendB(fr, args, b, cc)
	case "copy":
		return in.copyB(fr, args)
	case "len":
		switch x := args[0].(type) {
		case Str:
			return x.len
		case Slice:
			return x.len
		case *MapObj:
			in.raceMap(fr, x, false)
			return in.k64(x.size())
		case *ChanObj:
			if x == nil {
				return in.z64
			}
			return in.k64(len(x.buf))
		case Ptr:
			if x.an > 0 {
				return in.k64(x.an - 1)
			}
			if x.c != nil && x.c.bo != nil {
				return x.c.bo.n
			}
			if x.c != nil && x.c.arr != nil {
				return x.c.arr.n
			}
		case ByteArr:
			return in.k64(x.n)
		case *ArrVal:
			return in.k64(len(x.e))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.cap
		case *ChanObj:
			if x == nil {
				return in.z64
			}
			return in.k64(x.cap)
		case Ptr:
			if x.c != nil && x.c.bo != nil {
				return x.c.bo.n
			}
			if x.c != nil && x.c.arr != nil {
				return x.c.arr.n
			}
		case ByteArr:
			return in.k64(x.n)
		case *ArrVal:
			return in.k64(len(x.e))
		}
	case "delete":
		m, _ := args[0].(*MapObj)
		if m != nil {
			in.raceMap(fr, m, true)
			if e := in.mapFind(fr, m, args[1]); e != nil {
				e.dead = true
				for i, x := range m.ents {
					if x == e {
						m.ents = append(append([]*MapEnt{}, m.ents[:i]...), m.ents[i+1:]...)
						break
					}
				}
			}
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *MapObj:
			if x != nil {
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents = nil
			}
			return nil
		case Slice:
			if x.bo != nil {
				in.bCopyInto(x.bo, x.off, x.len, zeroNode, in.z64)
				return nil
			}
			n := int(in.conc(x.len))
			for i := 0; i < n; i++ {
				in.storeCell(in.arrCell(x.arr, int(in.conc(x.off))+i), in.zero(x.elem))
			}
			return nil
		}
	case "close":
		in.chanClose(fr, args[0])
		return nil
	case "print", "println":
		return nil
	case "panic":
		ifc, _ := args[0].(Iface)
		panic(&goPanic{v: ifc, kind: "explicit", where: in.where(fr), fn: in.repoFn(fr)})
	case "recover":
		c := fr.caller
		if c != nil && c.pan != nil {
			v := c.pan.v
			c.pan = nil
			if v == nil {
				v = Iface{}
			}
			return v
		}
		return Iface{}
	case "min", "max":
		t := cc.Args[0].Type()
		if isString(t) || isFloat(t) {
			in.unsupported("min/max of non-integers")
		}
		r := in.term(args[0])
		for _, a := range args[1:] {
			x := in.term(a)
			var c *Term
			if isSigned(t) {
				c = s.Slt(x, r)
			} else {
				c = s.Ult(x, r)
			}
			if b.Name() == "max" {
				if isSigned(t) {
					c = s.Slt(r, x)
				} else {
					c = s.Ult(r, x)
				}
			}
			r = s.Ite(c, x, r)
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.isNil() {
			in.nilDeref(fr, "nil receiver")
		}
		return args[0]
	case "ssa:deferstack":
		return &deferStack{fr}
	case "Sizeof":
		return in.ts.Const(uint64(sizes.Sizeof(cc.Args[0].Type())), 64)
	case "String": // unsafe.String(ptr, len)
		p := args[0].(Ptr)
		n := in.idx64(args[1], cc.Args[1].Type())
		if p.isNil() {
			return Str{node: zeroNode, off: in.z64, len: in.z64}
		}
		if p.bo != nil {
			return Str{live: p.bo, off: p.off, len: n}
		}
	case "StringData":
		x := args[0].(Str)
		if x.live != nil {
			return Ptr{bo: x.live, off: x.off}
		}
		return Ptr{bo: &ByteObj{node: x.node}, off: x.off}
	case "Slice":
		p := args[0].(Ptr)
		n := in.idx64(args[1], cc.Args[1].Type())
		return in.mkSlice(p, n, n, under(cc.Args[0].Type()).(*types.Pointer).Elem())
	case "SliceData":
		x := args[0].(Slice)
		if x.isnil {
			return Ptr{}
		}
		if x.bo != nil {
			return Ptr{bo: x.bo, off: x.off}
		}
		return Ptr{arr: x.arr, ai: int(in.conc(x.off))}
	case "Add":
		p := args[0].(Ptr)
		if p.bo != nil {
			return Ptr{bo: p.bo, off: s.Add(p.off, in.idx64(args[1], cc.Args[1].Type()))}
		}
	}
	in.unsupported(fmt.Sprintf("builtin %s on %T", b.Name(), args[0]))
	return nil
}

func (in *Interp) min64(a, b *Term) *Term {
	c := in.ts.Ule(a, b)
	switch in.implied(c) {
	case 1:
		return a
	case -1:
		return b
	}
	return in.ts.Ite(c, a, b)
}

func (in *Interp) copyB(fr *frame, args []Value) Value {
	dst := args[0].(Slice)
	var srcLen, srcOff *Term
	var node *BNode
	var sarr *Arr
	switch x := args[1].(type) {
	case Str:
		srcLen, srcOff, node = x.len, x.off, x.nd()
	case Slice:
		srcLen, srcOff = x.len, x.off
		if x.bo != nil {
			node = x.bo.node
		}
		sarr = x.arr
	}
	n := in.min64(dst.len, srcLen)
	if n.Op == OConst && n.K == 0 {
		return n
	}
	if dst.bo != nil && node != nil {
		in.bCopyInto(dst.bo, dst.off, n, node, srcOff)
		return n
	}
	if dst.isnil || (dst.bo == nil && dst.arr == nil) || (node == nil && sarr == nil) {
		return in.z64
	}
	k := int(in.conc(n))
	if k == 0 {
		return in.z64
	}
	if dst.arr == nil || sarr == nil {
		in.unsupported("copy kinds")
	}
	do, so := int(in.conc(dst.off)), int(in.conc(srcOff))
	vals := make([]Value, k)
	for i := range vals {
		c := in.arrCell(sarr, so+i)
		in.access(fr, c, false)
		vals[i] = in.loadCell(c)
	}
	for i := range vals {
		c := in.arrCell(dst.arr, do+i)
		in.access(fr, c, true)
		in.storeCell(c, vals[i])
	}
	return in.k64(k)
}

func (in *Interp) appendB(fr *frame, args []Value, b *ssa.Builtin, cc *ssa.CallCommon) Value {
	s := in.ts
	dst := args[0].(Slice)
	if len(args) == 1 {
		return dst
	}
	var n, srcOff *Term
	var node *BNode
	var sarr *Arr
	switch x := args[1].(type) {
	case Str:
		n, srcOff, node = x.len, x.off, x.nd()
	case Slice:
		n, srcOff, sarr = x.len, x.off, x.arr
		if x.bo != nil {
			node = x.bo.node
		}
	default:
		in.unsupported(fmt.Sprintf("append %T", args[1]))
	}
	if n.Op == OConst && n.K == 0 {
		return dst
	}
	total := s.Add(dst.len, n)
	es := uint64(sizes.Sizeof(dst.elem))
	bytes := isByteElem(dst.elem)
	if !bytes {
		in.conc(n)
		n = s.Const(in.conc(n), 64)
		if n.K == 0 {
			return dst
		}
		total = s.Add(dst.len, n)
	}
	if bytes && node == nil {
		// empty or nil source
		return dst
	}
	fits := in.decide(s.Ule(total, dst.cap))
	res := dst
	if !fits {
		// grow: double small slices like the runtime, exactly for the rest
		var nc *Term
		dbl := s.Add(dst.cap, dst.cap)
		c := s.Ule(total, dbl)
		if dst.cap.Op == OConst && dst.cap.K < 256 && in.implied(c) == 1 {
			nc = dbl
		} else {
			nc = total
		}
		if nc.Op == OConst && bytes && nc.K <= 1024 {
			nc = s.Const(roundSize(nc.K), 64)
		}
		in.account(fr, s.Mul(nc, s.Const(es, 64)))
		res = in.newSlice(dst.elem, total, nc)
		if bytes {
			if dst.bo != nil {
				in.bCopyInto(res.bo, in.z64, dst.len, dst.bo.node, dst.off)
			}
		} else {
			k := int(in.conc(dst.len))
			do := 0
			if k > 0 {
				do = int(in.conc(dst.off))
			}
			for i := 0; i < k; i++ {
				in.storeCell(in.arrCell(res.arr, i), in.loadCell(in.arrCell(dst.arr, do+i)))
			}
		}
	}
	if bytes && res.bo == nil {
		// nothing was appended to an empty slice
		return dst
	}
	res.len = total
	res.isnil = false
	at := s.Add(res.off, dst.len)
	if bytes {
		in.bCopyInto(res.bo, at, n, node, srcOff)
		return res
	}
	k := int(n.K)
	ao := int(in.conc(at))
	so := int(in.conc(srcOff))
	vals := make([]Value, k)
	for i := range vals {
		vals[i] = in.loadCell(in.arrCell(sarr, so+i))
	}
	for i := range vals {
		c := in.arrCell(res.arr, ao+i)
		in.access(fr, c, true)
		in.storeCell(c, vals[i])
	}
	return res
}

var sizeClasses = []uint64{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024}

func roundSize(n uint64) uint64 {
	for _, c := range sizeClasses {
		if n <= c {
			return c
		}
	}
	return n
}
