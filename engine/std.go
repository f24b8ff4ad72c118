package main

// Models of the parts of the standard library that the interpreter cannot execute from source (no Go body, unsafe
// tricks, reflection, the runtime's timers) or that are cheaper modelled: formatting, sort.Slice, timers, bytealg.

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- formatting ----

type verb struct {
	lit  string // literal text before it
	spec string // as written, with %
	v    byte   // 0: only literal text
	arg  int
}

// parseFmt splits a format; ok is false for what is not modelled (indexes, star widths).
func parseFmt(f string) (out []verb, n int, ok bool) {
	lit := ""
	for i := 0; i < len(f); {
		if f[i] != '%' {
			lit += f[i : i+1]
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) || f[j] == '*' || f[j] == '[' || f[j] >= 0x80 {
			return nil, 0, false
		}
		if f[j] == '%' {
			lit += "%"
		} else {
			out = append(out, verb{lit, f[i : j+1], f[j], n})
			n++
			lit = ""
		}
		i = j + 1
	}
	return append(out, verb{lit: lit}), n, true
}

func (in *Interp) fmtArgs(args Value) ([]Iface, bool) {
	var xs []Iface
	if sl, ok := args.(Slice); ok && !sl.isnil && sl.arr != nil {
		n, o := int(in.conc(sl.len)), int(in.conc(sl.off))
		for i := 0; i < n; i++ {
			v, ok := in.loadCell(in.arrCell(sl.arr, o+i)).(Iface)
			if !ok {
				return nil, false
			}
			xs = append(xs, v)
		}
	}
	return xs, true
}

// sprintf formats, as far as the arguments are modelled; otherwise it returns an unconstrained string.
func (in *Interp) sprintf(fr *frame, f Str, args Value) Str {
	fs, ok := in.concStr(f)
	if !ok {
		return in.opaque("fmt")
	}
	xs, ok := in.fmtArgs(args)
	if !ok {
		return in.opaque("fmt")
	}
	vs, n, ok := parseFmt(fs)
	if !ok || n != len(xs) {
		return in.opaque("fmt")
	}
	r := in.str("")
	for _, v := range vs {
		if v.lit != "" {
			r = in.concat(r, in.str(v.lit))
		}
		if v.v == 0 {
			continue
		}
		s, ok := in.fmtOne(fr, v, xs[v.arg])
		if !ok {
			return in.opaque("fmt")
		}
		r = in.concat(r, s)
	}
	return r
}

// fmtMethod calls Error or String the way package fmt does.
func (in *Interp) fmtMethod(fr *frame, v Iface) (Str, bool) {
	if v.t == nil {
		return Str{}, false
	}
	for _, n := range []string{"Error", "String"} {
		m := in.P.prog.MethodSets.MethodSet(v.t).Lookup(nil, n)
		if m == nil {
			continue
		}
		f := in.P.prog.MethodValue(m)
		if f == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || !isString(f.Signature.Results().At(0).Type()) {
			continue
		}
		if p, ok := v.v.(Ptr); ok && p.isNil() {
			return Str{}, false
		}
		if !in.fmtTrusted(f, v.t) {
			return Str{}, false
		}
		s, ok := in.callSSA(fr, f, []Value{v.v}, nil).(Str)
		return s, ok
	}
	return Str{}, false
}

func (in *Interp) fmtTrusted(f *ssa.Function, t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	nm, ok := t.(*types.Named)
	if !ok || nm.Obj().Pkg() == nil {
		return false
	}
	switch p := nm.Obj().Pkg().Path(); p {
	case "errors", "fmt", "io", "context", "bufio", "bytes", "strings", "encoding/hex", "strconv", "encoding/binary":
		return true
	}
	return in.P.isRepoFn(f) || (f.Pkg != nil && in.P.isRepoPkg(f.Pkg)) || strings.HasPrefix(nm.Obj().Pkg().Path(), "github.com/nanobus/iota")
}

func hasFmtMethod(in *Interp, t types.Type) bool {
	if t == nil {
		return false
	}
	ms := in.P.prog.MethodSets.MethodSet(t)
	return ms.Lookup(nil, "Error") != nil || ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Format") != nil || ms.Lookup(nil, "GoString") != nil
}

func (in *Interp) fmtOne(fr *frame, v verb, x Iface) (Str, bool) {
	c := v.v
	spec := v.spec
	if c == 'w' {
		c = 'v'
		spec = spec[:len(spec)-1] + "v"
	}
	if c == 'T' || c == 'p' || strings.Contains(spec, "#") {
		return Str{}, false
	}
	if x.t == nil {
		return in.str(fmt.Sprintf(spec, nil)), true
	}
	if strings.IndexByte("vsxXq", c) >= 0 && hasFmtMethod(in, x.t) {
		s, ok := in.fmtMethod(fr, x)
		if !ok {
			return Str{}, false
		}
		return in.fmtStr(spec, c, s)
	}
	if h, ok := in.hostVal(x); ok {
		return in.str(fmt.Sprintf(spec, h)), true
	}
	switch u := under(x.t).(type) {
	case *types.Basic:
		if s, ok := x.v.(Str); ok {
			return in.fmtStr(spec, c, s)
		}
		if t, ok := x.v.(*Term); ok && u.Info()&types.IsUnsigned != 0 && (c == 'x' || c == 'X') {
			if spec == fmt.Sprintf("%%0%d%c", t.W/4, c) {
				return in.hexStr(t, c), true
			}
		}
	case *types.Slice:
		s, ok := x.v.(Slice)
		if !ok || !isByteElem(u.Elem()) || (c != 's' && c != 'x' && c != 'X' && c != 'q') {
			return Str{}, false
		}
		if s.isnil || s.bo == nil {
			return in.fmtStr(spec, c, in.str(""))
		}
		return in.fmtStr(spec, c, in.sliceStr(s, false))
	}
	return Str{}, false
}

func (in *Interp) fmtStr(spec string, c byte, s Str) (Str, bool) {
	if cs, ok := in.concStr(s); ok {
		return in.str(fmt.Sprintf(spec, cs)), true
	}
	if len(spec) != 2 {
		return Str{}, false
	}
	switch c {
	case 's', 'v':
		return s, true
	case 'x', 'X':
		if s.len.Op != OConst || s.len.K > 64 {
			return Str{}, false
		}
		r := in.str("")
		for i := 0; i < int(s.len.K); i++ {
			r = in.concat(r, in.hexStr(in.bRead(s.nd(), in.ts.AddK(s.off, uint64(i))), c))
		}
		return r, true
	}
	return Str{}, false
}

// hexStr is the fixed-width hexadecimal form of a term.
func (in *Interp) hexStr(t *Term, c byte) Str {
	s := in.ts
	n := t.W / 4
	sl := in.newSlice(types.Typ[types.Uint8], in.k64(n), in.k64(n))
	for i := 0; i < n; i++ {
		d := s.Extract(t, (n-1-i)*4, 4)
		d = s.ZExt(d, 8)
		a := uint64('a')
		if c == 'X' {
			a = 'A'
		}
		in.bStoreAt(sl.bo, in.k64(i), s.Ite(s.Ule(d, s.Const(9, 8)), s.AddK(d, '0'), s.AddK(d, a-10)))
	}
	return in.sliceStr(sl, false)
}

// sprint mirrors fmt.Sprint and Sprintln.
func (in *Interp) sprint(fr *frame, args Value, ln bool) Str {
	xs, ok := in.fmtArgs(args)
	if !ok {
		return in.opaque("sprint")
	}
	r := in.str("")
	prev := false
	for i, x := range xs {
		isS := false
		if x.t != nil {
			b, ok := under(x.t).(*types.Basic)
			isS = ok && b.Info()&types.IsString != 0
		}
		if i > 0 && (ln || !isS && !prev) {
			r = in.concat(r, in.str(" "))
		}
		prev = isS
		s, ok := in.fmtOne(fr, verb{spec: "%v", v: 'v'}, x)
		if !ok {
			return in.opaque("sprint")
		}
		r = in.concat(r, s)
	}
	if ln {
		r = in.concat(r, in.str("\n"))
	}
	return r
}

// fprint writes to anything but the process's own files.
func (in *Interp) fprint(fr *frame, w Value, s func() Str) Value {
	wi, _ := w.(Iface)
	if wi.t == nil {
		in.nilDeref(fr, "nil writer")
	}
	if strings.HasPrefix(strings.TrimPrefix(wi.t.String(), "*"), "os.") {
		return Tuple{in.z64, Iface{}}
	}
	x := s()
	sl := in.convert(fr, types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], x)
	return in.invoke(fr, wi, "Write", []Value{sl})
}

func (in *Interp) hostVal(v Iface) (interface{}, bool) {
	if v.t == nil {
		return nil, true
	}
	b, ok := under(v.t).(*types.Basic)
	if !ok {
		return nil, false
	}
	switch x := v.v.(type) {
	case Str:
		s, ok := in.concStr(x)
		return s, ok
	case *Term:
		if x.Op != OConst {
			return nil, false
		}
		switch {
		case b.Info()&types.IsBoolean != 0:
			return x.K == 1, true
		case b.Info()&types.IsFloat != 0:
			if x.W == 32 {
				return math.Float32frombits(uint32(x.K)), true
			}
			return toF(x.K, x.W), true
		case b.Info()&types.IsUnsigned != 0:
			switch x.W {
			case 8:
				return uint8(x.K), true
			case 16:
				return uint16(x.K), true
			case 32:
				return uint32(x.K), true
			}
			return x.K, true
		case b.Info()&types.IsInteger != 0:
			return sx(x.K, x.W), true
		}
	}
	return nil, false
}

// errorf mirrors fmt.Errorf.
func (in *Interp) errorf(fr *frame, a []Value) Value {
	f := a[0].(Str)
	var ws []Iface
	fs, ok := in.concStr(f)
	if ok && strings.Contains(fs, "%w") {
		xs, ok := in.fmtArgs(a[1])
		vs, n, ok2 := parseFmt(fs)
		if !ok || !ok2 || n != len(xs) {
			in.unsupported("Errorf format " + fs)
		}
		for _, v := range vs {
			if v.v != 'w' {
				continue
			}
			x := xs[v.arg]
			if x.t != nil && in.P.errIface != nil && in.implements(x.t, in.P.errIface, in.P.errType) {
				ws = append(ws, x)
			}
		}
	}
	msg := in.sprintf(fr, f, a[1])
	switch len(ws) {
	case 0:
		return in.mkError(msg, nil)
	case 1:
		return in.mkError(msg, &ws[0])
	}
	t := in.P.typ("fmt", "wrapErrors")
	if t == nil {
		in.unsupported("fmt.wrapErrors")
	}
	c := in.newCell(t)
	in.storeCell(c.f[0], msg)
	sl := in.newSlice(in.P.errType, in.k64(len(ws)), in.k64(len(ws)))
	for i := range ws {
		in.storeCell(in.arrCell(sl.arr, i), ws[i])
	}
	in.storeCell(c.f[1], sl)
	return Iface{types.NewPointer(t), Ptr{c: c}}
}

// ---- timers ----

// A timer is a goroutine that runs when nothing else can, the earliest deadline first: time passes only while the
// program waits.
type timerState struct {
	armed  bool
	gen    int
	when   uint64
	period uint64
	ticks  int
	ch     *ChanObj
	f      Value
}

const maxTicks = 3

func (in *Interp) timerOf(v Value) *timerState {
	c := cellOf(in, v)
	t, _ := in.side[c].(*timerState)
	if t == nil {
		in.runtimePanic(in.cur.top, "timer", "time: Stop or Reset called on uninitialized Timer")
	}
	return t
}

func (in *Interp) armTimer(fr *frame, t *timerState, d *Term) {
	dur := int64(1)
	if d.Op == OConst {
		dur = int64(d.K)
	}
	if dur < 0 {
		dur = 0
	}
	t.armed = true
	t.gen++
	t.when = in.nowT*1000000000 + uint64(dur)
	gen := t.gen
	in.timers = append(in.timers, t)
	if len(in.gs) >= in.cfg.MaxG {
		in.limit("more goroutines than the bound")
	}
	g := in.newG("timer")
	g.low, g.timer = true, true
	in.hbFork(g)
	in.startG(g, func() {
		for {
			in.block("timer", func() bool {
				if !t.armed || t.gen != gen {
					return true
				}
				if t.period > 0 && len(t.ch.buf) > 0 {
					return false // a tick nobody takes is dropped
				}
				for _, o := range in.timers {
					if o != t && o.armed && o.when < t.when {
						return false
					}
				}
				return true
			})
			if !t.armed || t.gen != gen {
				return
			}
			if n := t.when/1000000000 + 1; n > in.nowT {
				in.nowT = n
			}
			if t.period == 0 || t.ticks >= maxTicks {
				t.armed = false
				if t.period > 0 {
					in.limit("more ticks than the bound")
				}
			} else {
				t.ticks++
				t.when += t.period
			}
			if t.ch != nil {
				in.schedPoint()
				in.trySend(nil, t.ch, in.callSSA(nil, in.P.fn("time", "Now"), nil, nil))
			} else {
				g.low, g.timer = false, false
				in.call(nil, t.f, nil)
				return
			}
			if !t.armed {
				return
			}
		}
	})
	g.ready = func() bool { return true }
}

func (in *Interp) mkTimer(fr *frame, name string, d Value, f Value, period bool) Value {
	t := in.P.typ("time", name)
	c := in.newCell(t)
	st := &timerState{f: f}
	in.side[c] = st
	if f == nil {
		st.ch = &ChanObj{cap: 1, elem: in.P.typ("time", "Time")}
		in.storeCell(c.f[0], st.ch)
	}
	in.storeCell(c.f[1], in.ts.True)
	if period {
		if !in.decide(in.ts.Slt(in.z64, in.term(d))) {
			in.runtimePanic(fr, "timer", "non-positive interval for NewTicker")
		}
		st.period = 1
		if k := in.term(d); k.Op == OConst {
			st.period = k.K
		}
	}
	in.armTimer(fr, st, in.term(d))
	return Ptr{c: c}
}

func (in *Interp) stopTimer(v Value) bool {
	t := in.timerOf(v)
	in.schedPoint()
	was := t.armed
	t.armed = false
	if t.ch != nil && len(t.ch.buf) > 0 {
		t.ch.buf = nil // no stale values after Stop or Reset
		was = true
	}
	return was
}

// ---- sorting ----

func (in *Interp) sortSlice(fr *frame, x Value, less Value) {
	xi, _ := x.(Iface)
	s, ok := xi.v.(Slice)
	if !ok {
		in.unsupported("sort.Slice of something else")
	}
	n := int(in.conc(s.len))
	if s.isnil || n < 2 {
		return
	}
	o := int(in.conc(s.off))
	for i := 1; i < n; i++ {
		for j := i; j > 0 && in.bool(in.call(fr, less, []Value{in.k64(j), in.k64(j - 1)})); j-- {
			if s.bo != nil {
				p, q := in.k64(o+j), in.k64(o+j-1)
				a, b := in.bRead(s.bo.node, p), in.bRead(s.bo.node, q)
				in.bStoreAt(s.bo, p, b)
				in.bStoreAt(s.bo, q, a)
				continue
			}
			p, q := in.arrCell(s.arr, o+j), in.arrCell(s.arr, o+j-1)
			a, b := in.loadCell(p), in.loadCell(q)
			in.storeCell(p, b)
			in.storeCell(q, a)
		}
	}
}

func addStd(T map[string]Intrinsic) {
	type F = Intrinsic
	T["fmt.Errorf"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.errorf(fr, a) }
	T["fmt.Sprintf"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.sprintf(fr, a[0].(Str), a[1])
	}
	T["fmt.Sprint"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.sprint(fr, a[0], false) }
	T["fmt.Sprintln"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.sprint(fr, a[0], true) }
	T["fmt.Fprintf"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.fprint(fr, a[0], func() Str { return in.sprintf(fr, a[1].(Str), a[2]) })
	}
	T["fmt.Fprint"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.fprint(fr, a[0], func() Str { return in.sprint(fr, a[1], false) })
	}
	T["fmt.Fprintln"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.fprint(fr, a[0], func() Str { return in.sprint(fr, a[1], true) })
	}
	bytesOf := func(in *Interp, fr *frame, dst Value, s Str) Value {
		sl := in.convert(fr, types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], s).(Slice)
		return in.appendB(fr, []Value{dst, sl}, nil, nil)
	}
	T["fmt.Appendf"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return bytesOf(in, fr, a[0], in.sprintf(fr, a[1].(Str), a[2]))
	}
	T["fmt.Append"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return bytesOf(in, fr, a[0], in.sprint(fr, a[1], false))
	}

	// sort, slices, maps
	ss := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.sortSlice(fr, a[0], a[1]); return nil }
	T["sort.Slice"] = ss
	T["sort.SliceStable"] = ss
	T["sort.SliceIsSorted"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			in.unsupported("sort.SliceIsSorted of something else")
		}
		for i := int(in.conc(s.len)) - 1; i > 0; i-- {
			if in.bool(in.call(fr, a[1], []Value{in.k64(i), in.k64(i - 1)})) {
				return in.ts.False
			}
		}
		return in.ts.True
	}
	T["slices.overlaps"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		if x.isnil || y.isnil || x.bo != y.bo || x.arr != y.arr || x.bo == nil && x.arr == nil {
			return in.ts.False
		}
		s := in.ts
		return s.And(s.Ult(x.off, s.Add(y.off, y.len)), s.Ult(y.off, s.Add(x.off, x.len)))
	}
	T["maps.clone"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		x := a[0].(Iface)
		m, ok := x.v.(*MapObj)
		if !ok || m == nil {
			return x
		}
		c := *m
		c.ents = nil
		for _, e := range m.ents {
			if !e.dead {
				n := *e
				c.ents = append(c.ents, &n)
			}
		}
		return Iface{x.t, &c}
	}

	// bytealg
	count := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		s := in.ts
		nd, off, ln := in.bytesArg(a[0])
		c := in.term(a[1])
		r := in.z64
		n := int(in.conc(ln))
		for i := 0; i < n; i++ {
			r = s.Add(r, s.Ite(s.Eq(in.bRead(nd, s.AddK(off, uint64(i))), c), in.k64(1), in.z64))
		}
		return r
	}
	T["internal/bytealg.Count"] = count
	T["internal/bytealg.CountString"] = count

	// math
	for k, f := range map[string]string{"math.archFloor": "floor", "math.archCeil": "ceil", "math.archTrunc": "trunc", "math.archSqrt": "sqrt"} {
		f := f
		T[k] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.callSSA(fr, in.P.fn("math", f), a, nil)
		}
	}
	rnd := func(w int) Intrinsic {
		return func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
			return in.ts.VarR(in.freshName("rand"), w, 0, mask(w))
		}
	}
	T["math/rand.runtime_rand"] = rnd(64)
	T["math/rand/v2.runtime_rand"] = rnd(64)

	// sync
	T["(*sync.RWMutex).TryLock"] = T["(*sync.Mutex).TryLock"]
	T["(*internal/sync.Mutex).TryLock"] = T["(*sync.Mutex).TryLock"]
	T["(*sync.RWMutex).TryRLock"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.schedPoint()
		m := in.mutex(a[0])
		if m.locked || m.wwait > 0 {
			return in.ts.False
		}
		m.readers++
		in.hbAcq(m)
		return in.ts.True
	}
	smap := func(in *Interp, v Value) *MapObj {
		c := cellOf(in, v)
		m, _ := in.side[c].(*MapObj)
		if m == nil {
			m = &MapObj{kt: in.P.anyType, vt: in.P.anyType}
			in.side[c] = m
		}
		in.schedPoint()
		in.hbSync(m)
		return m
	}
	T["(*sync.Map).Swap"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(fr, m, a[1]); e != nil {
			o := e.v
			e.v = a[2]
			return Tuple{o, in.ts.True}
		}
		m.ents = append(m.ents, &MapEnt{k: a[1], v: a[2]})
		return Tuple{Iface{}, in.ts.False}
	}
	T["(*sync.Map).CompareAndSwap"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(fr, m, a[1]); e != nil && in.decide(in.eq(fr, in.P.anyType, e.v, nil, a[2])) {
			e.v = a[3]
			return in.ts.True
		}
		return in.ts.False
	}
	T["(*sync.Map).CompareAndDelete"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		if e := in.mapFind(fr, m, a[1]); e != nil && in.decide(in.eq(fr, in.P.anyType, e.v, nil, a[2])) {
			in.builtinDelete(m, e)
			return in.ts.True
		}
		return in.ts.False
	}
	T["(*sync.Map).Clear"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		m := smap(in, a[0])
		for _, e := range m.ents {
			e.dead = true
		}
		m.ents = nil
		return nil
	}

	// time
	T["time.runtimeIsBubbled"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.ts.False }
	T["time.NewTimer"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.mkTimer(fr, "Timer", a[0], nil, false)
	}
	T["time.AfterFunc"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.mkTimer(fr, "Timer", a[0], a[1], false)
	}
	T["time.NewTicker"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		return in.mkTimer(fr, "Ticker", a[0], nil, true)
	}
	stop := func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { return in.ts.Bool(in.stopTimer(a[0])) }
	T["(*time.Timer).Stop"] = stop
	T["(*time.Ticker).Stop"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value { in.stopTimer(a[0]); return nil }
	T["(*time.Timer).Reset"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		r := in.stopTimer(a[0])
		in.armTimer(fr, in.timerOf(a[0]), in.term(a[1]))
		return in.ts.Bool(r)
	}
	T["(*time.Ticker).Reset"] = func(in *Interp, fr *frame, fn *ssa.Function, a []Value) Value {
		in.stopTimer(a[0])
		t := in.timerOf(a[0])
		if k := in.term(a[1]); k.Op == OConst {
			t.period = k.K
		}
		in.armTimer(fr, t, in.term(a[1]))
		return nil
	}
}
