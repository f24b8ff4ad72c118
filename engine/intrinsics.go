package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Intrinsic func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value

const svPath = "github.com/nanobus/iota/go/internal/zzverif/sv"

// NatObj is an opaque object whose methods are implemented by the engine.
type NatObj struct {
	name string
	st   interface{}
	m    func(in *Interp, method string, a []Value) Value
}

func (o *NatObj) call(in *Interp, method string, a []Value) Value { return o.m(in, method, a) }
func (o *NatObj) implements(it *types.Interface) bool             { return true }

func skipInit(p string) bool {
	switch p {
	case "runtime", "os", "syscall", "reflect", "net", "crypto/rand", "fmt", "log", "os/signal", "internal/poll", "testing", "internal/godebug", "unsafe", "math/rand", "math/rand/v2", "net/http", "crypto/tls", "embed":
		return true
	}
	return strings.HasPrefix(p, "go.uber.org/") || strings.HasPrefix(p, "github.com/tetratelabs/wazero") || strings.HasPrefix(p, "crypto/") || strings.HasPrefix(p, "internal/") || strings.HasPrefix(p, "github.com/spf13")
}

var noopPkgs = []string{"go.uber.org/zap", "go.uber.org/multierr", "log", "log/slog", "github.com/fatih/color", "github.com/rodaine/table", "github.com/go-logr/logr", "github.com/go-logr/zapr"}

func noop(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

func lookupIntrinsic(name string, fn *ssa.Function) Intrinsic {
	if i, ok := intrinsics[name]; ok {
		return i
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	if pkg == svPath {
		if strings.HasPrefix(fn.Name(), "init") {
			return noop
		}
		panic("no engine implementation of " + name)
	}
	for _, p := range noopPkgs {
		if pkg == p || strings.HasPrefix(pkg, p+"/") {
			return noop
		}
	}
	if pkg == "sync/atomic" && fn.Signature.Recv() == nil {
		return atomicFn(fn.Name())
	}
	return nil
}

func first(r []Value) Value {
	if len(r) == 0 {
		return nil
	}
	return r[0]
}

func atomicFn(n string) Intrinsic {
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.schedPoint()
			if p, ok := a[0].(Ptr); ok && p.c != nil {
				in.hbAcq(p.c)
			}
			return in.atomLoad(fr, a[0], fn)
		}
	case strings.HasPrefix(n, "Store"):
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.schedPoint()
			in.hbAtomic(a[0])
			in.atomStore(fr, a[0], a[1])
			return nil
		}
	case strings.HasPrefix(n, "Add"):
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.schedPoint()
			in.hbAtomic(a[0])
			v := in.ts.Add(in.term(in.atomLoad(fr, a[0], fn)), in.term(a[1]))
			in.atomStore(fr, a[0], v)
			return v
		}
	case strings.HasPrefix(n, "And"), strings.HasPrefix(n, "Or"):
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.schedPoint()
			in.hbAtomic(a[0])
			o := in.term(in.atomLoad(fr, a[0], fn))
			if strings.HasPrefix(n, "And") {
				in.atomStore(fr, a[0], in.ts.BAnd(o, in.term(a[1])))
			} else {
				in.atomStore(fr, a[0], in.ts.BOr(o, in.term(a[1])))
			}
			return o
		}
	case strings.HasPrefix(n, "Swap"):
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.schedPoint()
			in.hbAtomic(a[0])
			o := in.atomLoad(fr, a[0], fn)
			in.atomStore(fr, a[0], a[1])
			return o
		}
	case strings.HasPrefix(n, "CompareAndSwap"):
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			in.schedPoint()
			in.hbAtomic(a[0])
			o := in.atomLoad(fr, a[0], fn)
			t := fn.Signature.Params().At(1).Type()
			if in.decide(in.eq(fr, t, o, nil, a[1])) {
				in.atomStore(fr, a[0], a[2])
				return in.ts.True
			}
			return in.ts.False
		}
	}
	return nil
}

func (in *Interp) hbAtomic(p Value) {
	if in.races {
		if pp, ok := p.(Ptr); ok && pp.c != nil {
			in.hbSync(pp.c)
		}
	}
}

func (in *Interp) atomLoad(fr *frame, p Value, fn *ssa.Function) Value {
	r := in.races
	in.races = false
	v := in.load(fr, p, nil)
	in.races = r
	return v
}
func (in *Interp) atomStore(fr *frame, p, v Value) {
	r := in.races
	in.races = false
	in.store(fr, p, v, nil)
	in.races = r
}

func cellOf(in *Interp, v Value) *Cell {
	p, _ := v.(Ptr)
	if p.c == nil {
		in.nilDeref(in.cur.top, "nil receiver")
	}
	return p.c
}

type listState struct{ l []Value }
type wgState struct{ n int64 }
type condState struct{ q []*waiter }
type fmtStr struct{}

var intrinsics map[string]Intrinsic

func (in *Interp) bool(v Value) bool { return in.decide(in.term(v)) }

// opaque returns a string whose contents are unconstrained.
func (in *Interp) opaque(p string) Str {
	n := in.freshName(p)
	l := in.ts.VarR(n+".len", 64, 0, 64)
	in.assumeRange(l, 0, 64)
	return Str{node: &BNode{kind: bUF, name: n}, off: in.z64, len: l}
}

func (in *Interp) assumeRange(v *Term, lo, hi uint64) {
	// raw terms: the interval analysis already uses the range
	if lo > 0 {
		in.assumeRaw(in.ts.intern(&Term{Op: OUle, A: []*Term{in.ts.Const(lo, v.W), v}}))
	}
	if hi < mask(v.W) {
		in.assumeRaw(in.ts.intern(&Term{Op: OUle, A: []*Term{v, in.ts.Const(hi, v.W)}}))
	}
}

func (in *Interp) assumeRaw(t *Term) {
	in.pc = append(in.pc, t)
	in.pcHash = (in.pcHash ^ uint64(t.ID)) * 0x9E3779B97F4A7C15
	in.pcHash ^= in.pcHash >> 29
	if in.model != nil && in.model.eval(t) != 1 {
		in.model = nil
	}
}

// mkError builds an error value with the given text, wrapping err if not nil.
func (in *Interp) mkError(msg Str, wrapped *Iface) Value {
	if wrapped != nil && wrapped.t != nil {
		if t := in.P.typ("fmt", "wrapError"); t != nil {
			c := in.newCell(t)
			in.storeCell(c.f[0], msg)
			in.storeCell(c.f[1], *wrapped)
			return Iface{types.NewPointer(t), Ptr{c: c}}
		}
	}
	if t := in.P.typ("errors", "errorString"); t != nil {
		c := in.newCell(t)
		in.storeCell(c.f[0], msg)
		return Iface{in.P.ptrTo(t), Ptr{c: c}}
	}
	in.unsupported("errors package not loaded")
	return nil
}

// errorsIs mirrors errors.Is.
func (in *Interp) errorsIs(fr *frame, e, target Iface, depth int) bool {
	if depth > 20 {
		return false
	}
	if e.t == nil {
		return target.t == nil
	}
	if target.t != nil && types.Comparable(target.t) && types.Identical(e.t, target.t) {
		if in.decide(in.eq(fr, e.t, e.v, nil, target.v)) {
			return true
		}
	}
	if m := in.P.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Is"); m != nil {
		if f := in.P.prog.MethodValue(m); f != nil {
			if in.bool(in.callSSA(fr, f, []Value{e.v, target}, nil)) {
				return true
			}
		}
	}
	if m := in.P.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Unwrap"); m != nil {
		if f := in.P.prog.MethodValue(m); f != nil {
			r := in.callSSA(fr, f, []Value{e.v}, nil)
			if ifc, ok := r.(Iface); ok {
				if ifc.t == nil {
					return false
				}
				return in.errorsIs(fr, ifc, target, depth+1)
			}
			if sl, ok := r.(Slice); ok && !sl.isnil {
				n, o := int(in.conc(sl.len)), int(in.conc(sl.off))
				for i := 0; i < n; i++ {
					if in.errorsIs(fr, in.loadCell(in.arrCell(sl.arr, o+i)).(Iface), target, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

// errorsAs mirrors errors.As for a pointer target.
func (in *Interp) errorsAs(fr *frame, e Iface, target Iface, depth int) bool {
	if e.t == nil || depth > 20 {
		return false
	}
	pt, ok := under(target.t).(*types.Pointer)
	if !ok {
		in.unsupported("errors.As target")
	}
	tt := pt.Elem()
	if it, isI := under(tt).(*types.Interface); isI {
		if in.implements(e.t, it, tt) {
			in.store(fr, target.v, e, tt)
			return true
		}
	} else if types.Identical(e.t, tt) {
		in.store(fr, target.v, e.v, tt)
		return true
	}
	if m := in.P.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Unwrap"); m != nil {
		if f := in.P.prog.MethodValue(m); f != nil {
			r := in.callSSA(fr, f, []Value{e.v}, nil)
			if ifc, ok := r.(Iface); ok {
				return in.errorsAs(fr, ifc, target, depth+1)
			}
			if sl, ok := r.(Slice); ok && !sl.isnil {
				n, o := int(in.conc(sl.len)), int(in.conc(sl.off))
				for i := 0; i < n; i++ {
					if in.errorsAs(fr, in.loadCell(in.arrCell(sl.arr, o+i)).(Iface), target, depth+1) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (in *Interp) bytesArg(v Value) (nd *BNode, off, ln *Term) {
	switch x := v.(type) {
	case Str:
		return x.nd(), x.off, x.len
	case Slice:
		if x.bo == nil {
			return zeroNode, in.z64, x.len
		}
		return x.bo.node, x.off, x.len
	}
	in.unsupported(fmt.Sprintf("bytes argument %T", v))
	return nil, nil, nil
}

func (in *Interp) indexByte(v Value, c *Term, last bool) Value {
	s := in.ts
	nd, off, ln := in.bytesArg(v)
	if last {
		n := int(in.conc(ln))
		for i := n - 1; i >= 0; i-- {
			if in.decide(s.Eq(in.bRead(nd, s.AddK(off, uint64(i))), c)) {
				return in.k64(i)
			}
		}
		return in.k64(-1)
	}
	for i := 0; ; i++ {
		if i > in.cfg.MaxCmp*4 {
			in.limit("IndexByte longer than the bound")
		}
		if in.decide(s.Ule(ln, in.k64(i))) {
			return in.k64(-1)
		}
		if in.decide(s.Eq(in.bRead(nd, s.AddK(off, uint64(i))), c)) {
			return in.k64(i)
		}
	}
}

func bits64(in *Interp, x *Term, w int) *Term {
	// length of x in bits as ite chain
	s := in.ts
	r := in.z64
	for i := 0; i < w; i++ {
		r = s.Ite(s.Eq(s.Extract(x, i, 1), s.Const(1, 1)), in.k64(i+1), r)
	}
	return r
}

func tz64(in *Interp, x *Term, w int) *Term {
	s := in.ts
	r := in.k64(w)
	for i := w - 1; i >= 0; i-- {
		r = s.Ite(s.Eq(s.Extract(x, i, 1), s.Const(1, 1)), in.k64(i), r)
	}
	return r
}

func ident(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }

func init() {
	T := map[string]Intrinsic{}
	intrinsics = T
	// sync
	T["(*sync.Mutex).Lock"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.lock(fr, a[0]); return nil }
	T["(*sync.Mutex).Unlock"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.unlock(fr, a[0]); return nil }
	T["(*sync.Mutex).TryLock"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.schedPoint()
		m := in.mutex(a[0])
		if m.locked || m.readers > 0 {
			return in.ts.False
		}
		m.locked = true
		in.hbAcq(readers{m})
		in.hbSync(m)
		return in.ts.True
	}
	T["(*sync.RWMutex).Lock"] = T["(*sync.Mutex).Lock"]
	T["(*sync.RWMutex).Unlock"] = T["(*sync.Mutex).Unlock"]
	T["(*sync.RWMutex).RLock"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.rlock(fr, a[0]); return nil }
	T["(*sync.RWMutex).RUnlock"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.runlock(fr, a[0]); return nil }
	T["(*internal/sync.Mutex).Lock"] = T["(*sync.Mutex).Lock"]
	T["(*internal/sync.Mutex).Unlock"] = T["(*sync.Mutex).Unlock"]
	wg := func(in *Interp, v Value) *wgState {
		c := cellOf(in, v)
		w, _ := in.side[c].(*wgState)
		if w == nil {
			w = &wgState{}
			in.side[c] = w
		}
		return w
	}
	wgAdd := func(in *Interp, fr *frame, v Value, d int64) {
		w := wg(in, v)
		in.schedPoint()
		in.hbRel(w)
		w.n += d
		if w.n < 0 {
			in.runtimePanic(fr, "waitgroup", "sync: negative WaitGroup counter")
		}
	}
	T["(*sync.WaitGroup).Add"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(in, fr, a[0], int64(in.conc(in.term(a[1]))))
		return nil
	}
	T["(*sync.WaitGroup).Done"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		wgAdd(in, fr, a[0], -1)
		return nil
	}
	T["(*sync.WaitGroup).Wait"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		w := wg(in, a[0])
		in.schedPoint()
		in.block("WaitGroup.Wait", func() bool { return w.n == 0 })
		in.hbAcq(w)
		return nil
	}
	T["(*sync.Pool).Get"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		c := cellOf(in, a[0])
		l, _ := in.side[c].(*listState)
		if l != nil && len(l.l) > 0 {
			v := l.l[len(l.l)-1]
			l.l = l.l[:len(l.l)-1]
			return v
		}
		nf := c.f[len(c.f)-1].v
		if cl, ok := nf.(*Closure); ok && cl != nil {
			return in.call(fr, cl, nil)
		}
		return Iface{}
	}
	T["(*sync.Pool).Put"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		c := cellOf(in, a[0])
		l, _ := in.side[c].(*listState)
		if l == nil {
			l = &listState{}
			in.side[c] = l
		}
		l.l = append(l.l, a[1])
		return nil
	}
	// sync.Map
	smap := func(in *Interp, v Value) *MapObj {
		c := cellOf(in, v)
		m, _ := in.side[c].(*MapObj)
		if m == nil {
			m = &MapObj{kt: in.P.anyType, vt: in.P.anyType}
			in.side[c] = m
		}
		in.schedPoint()
		in.hbSync(m)
		return m
	}
	T["(*sync.Map).Load"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(fr, m, a[1]); e != nil {
			return Tuple{e.v, in.ts.True}
		}
		return Tuple{Iface{}, in.ts.False}
	}
	T["(*sync.Map).Store"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(fr, m, a[1]); e != nil {
			e.v = a[2]
		} else {
			m.ents = append(m.ents, &MapEnt{k: a[1], v: a[2]})
		}
		return nil
	}
	T["(*sync.Map).LoadOrStore"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(fr, m, a[1]); e != nil {
			return Tuple{e.v, in.ts.True}
		}
		m.ents = append(m.ents, &MapEnt{k: a[1], v: a[2]})
		return Tuple{a[2], in.ts.False}
	}
	T["(*sync.Map).LoadAndDelete"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(fr, m, a[1]); e != nil {
			v := e.v
			in.builtinDelete(m, e)
			return Tuple{v, in.ts.True}
		}
		return Tuple{Iface{}, in.ts.False}
	}
	T["(*sync.Map).Delete"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(fr, m, a[1]); e != nil {
			in.builtinDelete(m, e)
		}
		return nil
	}
	T["(*sync.Map).Range"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		for _, e := range append([]*MapEnt{}, m.ents...) {
			if e.dead {
				continue
			}
			if !in.bool(in.call(fr, a[1], []Value{e.k, e.v})) {
				break
			}
		}
		return nil
	}
	// atomic.Value
	av := func(in *Interp, v Value) *listState {
		c := cellOf(in, v)
		l, _ := in.side[c].(*listState)
		if l == nil {
			l = &listState{}
			in.side[c] = l
		}
		in.schedPoint()
		in.hbSync(l)
		return l
	}
	T["(*sync/atomic.Value).Load"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		l := av(in, a[0])
		if len(l.l) == 0 {
			return Iface{}
		}
		return l.l[0]
	}
	T["(*sync/atomic.Value).Store"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		l := av(in, a[0])
		l.l = []Value{a[1]}
		return nil
	}
	T["(*sync/atomic.Value).Swap"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		l := av(in, a[0])
		var o Value = Iface{}
		if len(l.l) > 0 {
			o = l.l[0]
		}
		l.l = []Value{a[1]}
		return o
	}
	T["(*sync/atomic.Value).CompareAndSwap"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		l := av(in, a[0])
		var o Value = Iface{}
		if len(l.l) > 0 {
			o = l.l[0]
		}
		if in.decide(in.eq(fr, in.P.anyType, o, nil, a[1])) {
			l.l = []Value{a[2]}
			return in.ts.True
		}
		return in.ts.False
	}
	// cond
	T["(*sync.Cond).Wait"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		c := cellOf(in, a[0])
		cs, _ := in.side[c].(*condState)
		if cs == nil {
			cs = &condState{}
			in.side[c] = cs
		}
		lk := in.loadCell(c.f[1]).(Iface) // L Locker
		done := false
		cs.q = append(cs.q, &waiter{done: &done})
		in.invoke(fr, lk, "Unlock", nil)
		in.block("Cond.Wait", func() bool { return done })
		in.invoke(fr, lk, "Lock", nil)
		return nil
	}
	sig := func(all bool) Intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			c := cellOf(in, a[0])
			in.schedPoint()
			cs, _ := in.side[c].(*condState)
			if cs == nil {
				return nil
			}
			for {
				w := popLive(&cs.q)
				if w == nil {
					return nil
				}
				w.fire()
				if !all {
					return nil
				}
			}
		}
	}
	T["(*sync.Cond).Signal"] = sig(false)
	T["(*sync.Cond).Broadcast"] = sig(true)

	// runtime
	T["runtime.Gosched"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.gosched(); return nil }
	T["runtime.NumGoroutine"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, g := range in.gs {
			if !g.done && !g.timer {
				n++
			}
		}
		return in.k64(n)
	}
	T["runtime.GC"] = noop
	T["runtime.KeepAlive"] = noop
	T["runtime.SetFinalizer"] = noop
	T["runtime.Goexit"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { panic(goexitSig{}) }
	T["internal/abi.NoEscape"] = ident
	T["internal/abi.Escape"] = ident
	T["strings.noescape"] = ident
	T["internal/race.Enabled"] = noop
	T["internal/godebug.New"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return Ptr{} }
	T["(*internal/godebug.Setting).Value"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.str("") }
	T["(*internal/godebug.Setting).IncNonDefault"] = noop

	// errors, fmt
	T["errors.Is"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		e, t := a[0].(Iface), a[1].(Iface)
		if e.t == nil || t.t == nil {
			return in.ts.Bool(e.t == nil && t.t == nil)
		}
		return in.ts.Bool(in.errorsIs(fr, e, t, 0))
	}
	T["errors.As"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.ts.Bool(in.errorsAs(fr, a[0].(Iface), a[1].(Iface), 0))
	}
	T["fmt.Println"] = noop
	T["fmt.Printf"] = noop
	T["fmt.Print"] = noop
	T["context.WithValue"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		t := in.P.typ("context", "valueCtx")
		c := in.newCell(t)
		in.storeCell(c.f[0], a[0])
		in.storeCell(c.f[1], a[1])
		in.storeCell(c.f[2], a[2])
		return Iface{in.P.ptrTo(t), Ptr{c: c}}
	}
	T["context.contextName"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.str("ctx") }

	// math
	for _, n := range []string{"math.Float32bits", "math.Float64bits", "math.Float32frombits", "math.Float64frombits"} {
		T[n] = ident
	}
	T["math.IsNaN"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := in.term(a[0])
		return in.ts.Not(in.fcmp(OFEq, x, x))
	}
	lenW := func(w int) Intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return bits64(in, in.term(a[0]), w) }
	}
	T["math/bits.Len"] = lenW(64)
	T["math/bits.Len64"] = lenW(64)
	T["math/bits.Len32"] = lenW(32)
	T["math/bits.Len16"] = lenW(16)
	T["math/bits.Len8"] = lenW(8)
	tz := func(w int) Intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return tz64(in, in.term(a[0]), w) }
	}
	T["math/bits.TrailingZeros"] = tz(64)
	T["math/bits.TrailingZeros64"] = tz(64)
	T["math/bits.TrailingZeros32"] = tz(32)
	T["math/bits.TrailingZeros16"] = tz(16)
	T["math/bits.TrailingZeros8"] = tz(8)

	// bytealg
	ib := func(last bool) Intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.indexByte(a[0], in.term(a[1]), last)
		}
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "bytes.IndexByte", "strings.IndexByte"} {
		T[n] = ib(false)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		T[n] = ib(true)
	}
	beq := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, xo, xl := in.bytesArg(a[0])
		y, yo, yl := in.bytesArg(a[1])
		return in.strEq(Str{node: x, off: xo, len: xl}, Str{node: y, off: yo, len: yl})
	}
	T["bytes.Equal"] = beq
	T["internal/bytealg.Equal"] = beq
	cmp := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, xo, xl := in.bytesArg(a[0])
		y, yo, yl := in.bytesArg(a[1])
		p, q := Str{node: x, off: xo, len: xl}, Str{node: y, off: yo, len: yl}
		return in.ts.Ite(in.strLess(p, q, false), in.k64(-1), in.ts.Ite(in.strLess(q, p, false), in.k64(1), in.z64))
	}
	T["bytes.Compare"] = cmp
	T["internal/bytealg.Compare"] = cmp
	T["internal/bytealg.CompareString"] = cmp
	T["strings.Compare"] = cmp
	T["internal/bytealg.MakeNoZero"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		n := in.term(a[0])
		return in.makeSlice(fr, types.Typ[types.Uint8], n, n)
	}
	T["internal/stringslite.Clone"] = ident
	T["strings.Clone"] = ident

	// time
	T["time.Sleep"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.gosched(); return nil }
	T["time.now"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.nowT++
		return Tuple{in.ts.Const(1700000000+in.nowT, 64), in.ts.Const(0, 32), in.ts.Const(in.nowT*1000000000, 64)}
	}
	T["time.runtimeNano"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.nowT++
		return in.ts.Const(in.nowT*1000000000, 64)
	}
	T["time.runtimeNow"] = T["time.now"]

	addStd(T)
	addSV(T)
}

func (in *Interp) builtinDelete(m *MapObj, e *MapEnt) {
	e.dead = true
	for i, x := range m.ents {
		if x == e {
			m.ents = append(append([]*MapEnt{}, m.ents[:i]...), m.ents[i+1:]...)
			return
		}
	}
}

// invoke calls a method by name on an interface value.
func (in *Interp) invoke(fr *frame, v Iface, name string, args []Value) Value {
	if v.t == nil {
		in.nilDeref(fr, "invoke "+name)
	}
	ms := in.P.prog.MethodSets.MethodSet(v.t)
	m := ms.Lookup(nil, name)
	if m == nil {
		in.unsupported("no method " + name + " on " + v.t.String())
	}
	f := in.P.prog.MethodValue(m)
	return in.callSSA(fr, f, append([]Value{v.v}, args...), nil)
}
