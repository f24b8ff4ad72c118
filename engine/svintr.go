package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) ndName(v Value) string {
	s, ok := in.concStr(v.(Str))
	if !ok {
		in.unsupported("symbolic input name")
	}
	n := in.ndn[s]
	in.ndn[s]++
	if n > 0 {
		return fmt.Sprintf("%s#%d", s, n)
	}
	return s
}

func (in *Interp) kint(v Value) int64 { return int64(in.conc(in.term(v))) }

func (in *Interp) label(v Value) string {
	s, ok := in.concStr(v.(Str))
	if !ok {
		return "?"
	}
	return s
}

// assertT checks that c holds on every input of the current path.
func (in *Interp) assertT(fr *frame, c *Term, label string) {
	in.asserts++
	if c == in.ts.True {
		return
	}
	if in.pos >= len(in.prefix) {
		nc := in.ts.Not(c)
		if f, ok := in.facts[c.ID]; ok && f > 0 {
			return
		}
		if c.Op == OAnd && in.ensureModel() {
			// one conjunct at a time: each needs only part of the path condition
			for _, x := range c.A {
				if in.facts[x.ID] > 0 {
					continue
				}
				if in.report(fr, "assert", label, "assertion "+label+" fails", in.ts.Not(x)) {
					break
				}
			}
		} else {
			in.report(fr, "assert", label, "assertion "+label+" fails", nc)
		}
	}
	if c == in.ts.False {
		panic(&abortSig{pathRes{"violation", label}})
	}
	in.assume(c)
}

func (in *Interp) mkBytes(name string, ln *Term) Slice {
	arr := "b." + name
	in.nd = append(in.nd, NDVar{Name: name, Kind: "bytes", Len: ln, Arr: arr})
	bo := &ByteObj{node: &BNode{kind: bUF, name: arr}, n: ln, elem: types.Typ[types.Uint8]}
	return Slice{bo: bo, off: in.z64, len: ln, cap: ln, elem: types.Typ[types.Uint8]}
}

func addSV(T map[string]Intrinsic) {
	p := svPath + "."
	for _, x := range []struct {
		n string
		w int
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I8", 8}, {"I16", 16}, {"I32", 32}, {"I64", 64}, {"Int", 64}, {"Bool", 0}, {"F32", 32}, {"F64", 64}} {
		w := x.w
		T[p+x.n] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			n := in.ndName(a[0])
			v := in.ts.Var("v."+n, w)
			in.nd = append(in.nd, NDVar{Name: n, Kind: "int", T: v, W: w})
			return v
		}
	}
	T[p+"IntRange"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := in.ndName(a[0])
		lo, hi := in.kint(a[1]), in.kint(a[2])
		var v *Term
		if lo >= 0 {
			if lo > hi {
				panic(&abortSig{pathRes{"infeasible", ""}})
			}
			v = in.ts.VarR("v."+n, 64, uint64(lo), uint64(hi))
			in.assumeRange(v, uint64(lo), uint64(hi))
		} else {
			v = in.ts.Var("v."+n, 64)
			in.assume(in.ts.Sle(in.k64(int(lo)), v))
			in.assume(in.ts.Sle(v, in.k64(int(hi))))
		}
		in.nd = append(in.nd, NDVar{Name: n, Kind: "int", T: v, W: 64})
		return v
	}
	T[p+"Choose"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := in.ndName(a[0])
		k := in.choose(int(in.kint(a[1])))
		in.nd = append(in.nd, NDVar{Name: n, Kind: "choice", V: uint64(k)})
		return in.k64(k)
	}
	T[p+"Bytes"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := in.ndName(a[0])
		mx := in.kint(a[1])
		ln := in.ts.VarR("l."+n, 64, 0, uint64(mx))
		in.assumeRange(ln, 0, uint64(mx))
		return in.mkBytes(n, ln)
	}
	T[p+"BytesN"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := in.ndName(a[0])
		return in.mkBytes(n, in.term(a[1]))
	}
	T[p+"String"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := in.ndName(a[0])
		mx := in.kint(a[1])
		ln := in.ts.VarR("l."+n, 64, 0, uint64(mx))
		in.assumeRange(ln, 0, uint64(mx))
		return in.sliceStr(in.mkBytes(n, ln), false)
	}
	T[p+"StringN"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := in.ndName(a[0])
		return in.sliceStr(in.mkBytes(n, in.term(a[1])), false)
	}
	T[p+"Assume"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		c := in.term(a[0])
		if c == in.ts.False {
			panic(&abortSig{pathRes{"infeasible", ""}})
		}
		in.assume(c)
		if in.pos >= len(in.prefix) {
			in.ensureModel()
		}
		return nil
	}
	T[p+"Assert"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.assertT(fr, in.term(a[0]), in.label(a[1]))
		return nil
	}
	T[p+"Fail"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.assertT(fr, in.ts.False, in.label(a[0]))
		return nil
	}
	same := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s := in.ts
		x, xo, xl := in.bytesArg(a[0])
		y, yo, yl := in.bytesArg(a[1])
		lb := in.label(a[2])
		in.assertT(fr, s.Eq(xl, yl), lb+".len")
		if x == y && xo == yo {
			return nil
		}
		if xl.Op == OConst && xl.K <= 16 {
			var cs []*Term
			for i := uint64(0); i < xl.K; i++ {
				cs = append(cs, s.Eq(in.bRead(x, s.AddK(xo, i)), in.bRead(y, s.AddK(yo, i))))
			}
			in.assertT(fr, s.And(cs...), lb)
			return nil
		}
		// an arbitrary index
		n := in.ndName(in.str("ix." + lb))
		i := s.Var("v."+n, 64)
		if xl.Op == OConst && xl.K > 0 {
			i = s.VarR("v."+n, 64, 0, xl.K-1)
		}
		inr := s.intern(&Term{Op: OUlt, A: []*Term{i, xl}})
		// the reads may use the range
		pc, hash := in.pc, in.pcHash
		mod := in.model
		in.assumeRaw(inr)
		r, _ := in.sol.Check(in.pc, nil)
		if r != Unsat {
			fs := in.facts
			nf := make(map[int]int8, len(fs)+1)
			for k, v := range fs {
				nf[k] = v
			}
			nf[inr.ID] = 1
			in.facts = nf
			e := s.Eq(in.bRead(x, s.Add(xo, i)), in.bRead(y, s.Add(yo, i)))
			in.asserts++
			if in.pos >= len(in.prefix) && e != s.True {
				in.report(fr, "assert", lb, "assertion "+lb+" fails", s.Not(e))
			}
			in.facts = fs
		}
		in.pc, in.pcHash, in.model = pc, hash, mod
		return nil
	}
	T[p+"SameBytes"] = same
	T[p+"SameString"] = same
	T[p+"Reach"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		if in.pos >= len(in.prefix) && in.ensureModel() {
			in.reached[in.label(a[0])] = true
		}
		return nil
	}
	T[p+"Yield"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.schedPoint(); return nil }
	T[p+"Quiesce"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		g := in.cur
		for {
			rs := in.runnable(g)
			if len(rs) == 0 {
				break
			}
			g.low = true
			in.switchTo(rs[in.pickG(len(rs))])
			g.low = false
		}
		n := 0
		for _, x := range in.gs {
			if !x.done && x != g && !x.timer {
				n++
			}
		}
		return in.k64(n)
	}
	T[p+"AllocLimit"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.allocs = in.z64
		in.allocL = in.term(a[0])
		if in.allocL == in.z64 {
			in.allocL = nil
		}
		return nil
	}
	T[p+"Deep"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.ts.Bool(in.cfg.Deep) }
	T[p+"Symbolic"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.ts.True }
	T[p+"Conc"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.ts.Const(in.conc(in.term(a[0])), 64)
	}
	T[p+"Observe"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.obs = append(in.obs, obs{name: in.label(a[0]), t: in.term(a[1])})
		return nil
	}
	T[p+"ObserveBytes"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		nd, off, ln := in.bytesArg(a[1])
		in.obs = append(in.obs, obs{name: in.label(a[0]), b: &Slice{bo: &ByteObj{node: nd}, off: off, len: ln}})
		return nil
	}
	T[p+"Races"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.races = true
		in.oclk = map[interface{}]vclock{}
		return nil
	}
	T[p+"Ite"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.ts.Ite(in.term(a[0]), in.term(a[1]), in.term(a[2]))
	}
	T[p+"And"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.ts.And(in.term(a[0]), in.term(a[1]))
	}
	T[p+"Or"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.ts.Or(in.term(a[0]), in.term(a[1]))
	}
	T[p+"Hang"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.block("sv.Hang", func() bool { return false })
		return nil
	}
	T[p+"Preempt"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.maxPre = int(in.kint(a[0]))
		return nil
	}
}
