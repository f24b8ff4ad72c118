package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"os"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one decision of a path.
type Dec struct {
	C      int32
	Forced bool
	V      uint64
}

type fnInfo struct {
	slots map[ssa.Value]int
	n     int
	intr  Intrinsic
	repo  bool
	noop  bool
	name  string
}

// NDVar is one nondeterministic input drawn on a path.
type NDVar struct {
	Name string
	Kind string // int, bytes, choice
	T    *Term
	Len  *Term
	Arr  string
	V    uint64
	W    int
}

type obs struct {
	name string
	t    *Term
	b    *Slice
}

// Interp is one worker's interpreter.
type Interp struct {
	P    *Program
	ts   *TS
	sol  *Solver
	z64  *Term
	cfg  *RunCfg
	fi   map[*ssa.Function]*fnInfo
	cc   map[*ssa.Const]Value
	mcac map[mkey]*ssa.Function
	impl map[ikey]bool
	std  map[*ssa.Global]*Cell // globals of standard library packages, kept across paths
	stdi map[*ssa.Package]bool

	// per path
	pc      []*Term
	pcHash  uint64
	icache  map[[2]uint64]int8 // kept across paths
	model   *Model
	prefix  []Dec
	pos     int
	trail   []Dec
	alts    [][]Dec
	glob    map[*ssa.Global]*Cell
	ginit   map[*ssa.Package]bool
	addrs   map[int]interface{}
	naddr   int
	nd      []NDVar
	ndn     map[string]int
	obs     []obs
	reached map[string]bool
	steps   int
	blocks  int
	allocs  *Term
	allocL  *Term // limit, nil = none
	facts   map[int]int8
	tol     int // tolerant depth (package initialisation)
	viols   []*Violation
	asserts int
	side    map[interface{}]interface{} // state of stubbed objects
	killed  bool
	gs      []*G
	cur     *G
	gdone   chan pathRes
	preempt int
	fresh   int
	events  []schedEv
	nowT    uint64
	timers  []*timerState
	depthMx int
	spins   int
	races   bool
	maxPre  int
	vc      []vclock
	oclk    map[interface{}]vclock

	// accumulated
	encoded map[string]int
	stubs   map[string]int
	nblocks int64
	nsteps  int64
	ndec    int64
}

type schedEv struct {
	G    int    `json:"g"`
	To   int    `json:"to"`
	File string `json:"file"`
	Line int    `json:"line"`
}

type mkey struct {
	t types.Type
	m *types.Func
}
type ikey struct {
	t types.Type
	i types.Type
}

type pathRes struct {
	kind string // done, infeasible, unsupported, limit, violation
	msg  string
}

// sentinels carried by Go panics inside the interpreter
type abortSig struct{ res pathRes }
type killSig struct{}
type goexitSig struct{}

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v     Value // Iface
	kind  string
	where string
	fn    string
}

type Violation struct {
	Kind    string // assert, panic, deadlock, alloc, wild, overflow
	Label   string
	Where   string
	Key     string
	Vec     *Vector
	Trail   []Dec
	Sched   []schedEv
	Threads int
	Harness string
	Detail  string
}

type frame struct {
	in     *Interp
	g      *G
	caller *frame
	fn     *ssa.Function
	info   *fnInfo
	env    []Value
	block  *ssa.BasicBlock
	prev   *ssa.BasicBlock
	defers []*deferred
	result Value
	pan    *goPanic
	goexit bool
	recov  bool
	depth  int
	instr  ssa.Instruction
	native bool
}

type deferred struct {
	fn    Value
	args  []Value
	instr *ssa.Defer
}

func newInterp(P *Program, cfg *RunCfg) *Interp {
	ts := newTS()
	in := &Interp{P: P, ts: ts, cfg: cfg, fi: map[*ssa.Function]*fnInfo{}, cc: map[*ssa.Const]Value{},
		mcac: map[mkey]*ssa.Function{}, impl: map[ikey]bool{}, std: map[*ssa.Global]*Cell{}, stdi: map[*ssa.Package]bool{},
		icache: map[[2]uint64]int8{}, encoded: map[string]int{}, stubs: map[string]int{}}
	in.z64 = ts.Const(0, 64)
	in.sol = newSolver(ts, cfg.QueryMs)
	return in
}

func (in *Interp) unsupported(msg string) {
	if in.cur != nil && in.cur.top != nil {
		msg += " @" + in.where(in.cur.top)
	}
	panic(&abortSig{pathRes{"unsupported", msg}})
}

func (in *Interp) limit(msg string) {
	panic(&abortSig{pathRes{"limit", msg}})
}

// endless gives up on a path that may never end. Its inputs are a candidate for the native replay, which
// shows a violation if it does not end either.
func (in *Interp) endless(fr *frame, msg string) {
	if fr != nil {
		in.report(fr, "hang", "hang", msg, nil)
	}
	in.limit(msg)
}

func (in *Interp) where(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.fn == nil {
			continue
		}
		if f.instr != nil && f.instr.Pos() != token.NoPos {
			p := in.P.fset.Position(f.instr.Pos())
			return fmt.Sprintf("%s %s:%d", f.fn.String(), shortFile(p.Filename), p.Line)
		}
		return f.fn.String()
	}
	return "?"
}

func shortFile(f string) string {
	if i := strings.Index(f, "/repo/"); i >= 0 {
		return f[i+6:]
	}
	if i := strings.LastIndex(f, "/src/"); i >= 0 {
		return f[i+5:]
	}
	return f
}

// repoFn names the innermost repository function on the stack (excluding harness code).
func (in *Interp) repoFn(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.fn == nil {
			continue
		}
		if in.P.isRepoFn(f.fn) {
			return fnKey(f.fn)
		}
	}
	return "harness"
}

func fnKey(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

// ---- decisions ----

func (in *Interp) assume(t *Term) {
	if t == in.ts.True {
		return
	}
	if t.Op == OAnd {
		for _, a := range t.A {
			in.assume(a)
		}
		return
	}
	in.pc = append(in.pc, t)
	in.pcHash = (in.pcHash ^ uint64(t.ID)) * 0x9E3779B97F4A7C15
	in.pcHash ^= in.pcHash >> 29
	in.facts[t.ID] = 1
	if in.model != nil && in.model.eval(t) != 1 {
		in.model = nil
	}
}

func (in *Interp) ensureModel() bool {
	if in.model != nil {
		return true
	}
	r, m := in.sol.Check(in.pc, nil)
	switch r {
	case Unsat:
		panic(&abortSig{pathRes{"infeasible", ""}})
	case Sat:
		in.model = m
		return true
	}
	return false
}

func (in *Interp) record(d Dec) {
	in.trail = append(in.trail, d)
	in.pos++
	in.ndec++
	if len(in.trail) > in.cfg.MaxDec {
		var fr *frame
		if in.cur != nil {
			fr = in.cur.top
		}
		in.endless(fr, fmt.Sprintf("more than %d decisions on a path", in.cfg.MaxDec))
	}
}

func (in *Interp) addAlt(d Dec) {
	in.prof()
	p := make([]Dec, len(in.trail)+1)
	copy(p, in.trail)
	p[len(in.trail)] = d
	in.alts = append(in.alts, p)
}

func (in *Interp) decide(c *Term) bool {
	if c.Op == OConst {
		return c.K == 1
	}
	if f, ok := in.facts[c.ID]; ok && f != 0 {
		return f > 0
	}
	nc := in.ts.Not(c)
	if f, ok := in.facts[nc.ID]; ok && f != 0 {
		return f < 0
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.record(d)
		take := d.C == 1
		lit := c
		if !take {
			lit = nc
		}
		if d.Forced {
			in.facts[lit.ID] = 1
		} else {
			in.assume(lit)
		}
		return take
	}
	if in.ensureModel() {
		mv := in.model.eval(c) == 1
		lit, other := c, nc
		if !mv {
			lit, other = nc, c
		}
		r, _ := in.sol.CheckFrom(in.pc, other, in.model)
		if r == Unsat {
			in.record(Dec{C: int32(b2u(mv)), Forced: true})
			in.facts[lit.ID] = 1
			return mv
		}
		in.addAlt(Dec{C: int32(b2u(!mv))})
		in.record(Dec{C: int32(b2u(mv))})
		in.assume(lit)
		return mv
	}
	// no model known: explore both sides
	r1, m1 := in.sol.Check(in.pc, c)
	r0, _ := in.sol.Check(in.pc, nc)
	if r1 == Unsat && r0 == Unsat {
		panic(&abortSig{pathRes{"infeasible", ""}})
	}
	if r1 == Unsat {
		in.record(Dec{C: 0, Forced: true})
		in.facts[nc.ID] = 1
		return false
	}
	if r0 == Unsat {
		in.record(Dec{C: 1, Forced: true})
		in.facts[c.ID] = 1
		return true
	}
	in.addAlt(Dec{C: 0})
	in.record(Dec{C: 1})
	in.assume(c)
	if r1 == Sat {
		in.model = m1
	}
	return true
}

// implied reports 1 if the path condition implies c, -1 if it implies ¬c, 0 otherwise.
func (in *Interp) implied(c *Term) int {
	if c.Op == OConst {
		if c.K == 1 {
			return 1
		}
		return -1
	}
	if f, ok := in.facts[c.ID]; ok {
		return int(f)
	}
	nc := in.ts.Not(c)
	if f, ok := in.facts[nc.ID]; ok {
		return -int(f)
	}
	// not recorded as a decision: deterministic given the path condition unless a query times out
	ck := [2]uint64{in.pcHash, uint64(c.ID)}
	if r, ok := in.icache[ck]; ok {
		if r != 0 {
			if r > 0 {
				in.facts[c.ID] = 1
			} else {
				in.facts[nc.ID] = 1
			}
		} else {
			in.facts[c.ID] = 0
		}
		return int(r)
	}
	if !in.ensureModel() {
		return 0
	}
	mv := in.model.eval(c) == 1
	other := nc
	if !mv {
		other = c
	}
	r, _ := in.sol.CheckFrom(in.pc, other, in.model)
	if r == Unsat {
		if mv {
			in.facts[c.ID] = 1
			in.icache[ck] = 1
			return 1
		}
		in.facts[nc.ID] = 1
		in.icache[ck] = -1
		return -1
	}
	in.facts[c.ID] = 0
	in.icache[ck] = 0
	return 0
}

func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.record(d)
		return int(d.C)
	}
	for i := n - 1; i > 0; i-- {
		in.addAlt(Dec{C: int32(i)})
	}
	in.record(Dec{C: 0})
	return 0
}

// conc forks on the value of t.
func (in *Interp) conc(t *Term) uint64 {
	if t.Op == OConst {
		return t.K
	}
	for n := 0; ; n++ {
		if n > in.cfg.MaxConc {
			in.limit(fmt.Sprintf("more than %d values for a concretised term", in.cfg.MaxConc))
		}
		var v uint64
		if in.pos < len(in.prefix) {
			v = in.prefix[in.pos].V
			d := in.prefix[in.pos]
			in.record(d)
			e := in.ts.Eq(t, in.ts.Const(v, t.W))
			if d.C == 1 {
				if d.Forced {
					in.facts[e.ID] = 1
				} else {
					in.assume(e)
				}
				return v
			}
			in.assume(in.ts.Not(e))
			continue
		}
		if !in.ensureModel() {
			in.limit("concretisation without a model")
		}
		v = in.model.eval(t)
		e := in.ts.Eq(t, in.ts.Const(v, t.W))
		if e.Op == OConst {
			return v
		}
		r, _ := in.sol.CheckFrom(in.pc, in.ts.Not(e), in.model)
		if r == Unsat {
			in.record(Dec{C: 1, Forced: true, V: v})
			in.facts[e.ID] = 1
			return v
		}
		in.addAlt(Dec{C: 0, V: v})
		in.record(Dec{C: 1, V: v})
		in.assume(e)
		return v
	}
}

func (in *Interp) freshName(p string) string {
	in.fresh++
	return fmt.Sprintf("%s!%d", p, in.fresh)
}

// ---- frames ----

var fnInfoMu sync.Mutex
var fnInfoShared = map[*ssa.Function]*fnInfo{}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.fi[fn]; ok {
		return fi
	}
	fnInfoMu.Lock()
	defer fnInfoMu.Unlock()
	fi, ok := fnInfoShared[fn]
	if !ok {
		fi = &fnInfo{slots: map[ssa.Value]int{}}
		add := func(v ssa.Value) {
			fi.slots[v] = fi.n
			fi.n++
		}
		for _, p := range fn.Params {
			add(p)
		}
		for _, p := range fn.FreeVars {
			add(p)
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok {
					add(v)
				}
			}
		}
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		fi.name = o.String()
		fi.intr = lookupIntrinsic(fi.name, o)
		fi.repo = in.P.isRepoFn(fn)
		fnInfoShared[fn] = fi
	}
	in.fi[fn] = fi
	return fi
}

func (fr *frame) get(v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.in.constVal(v)
	case *ssa.Global:
		return Ptr{c: fr.in.global(v)}
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Builtin:
		return v
	}
	if i, ok := fr.info.slots[v]; ok {
		return fr.env[i]
	}
	fr.in.unsupported("no slot for " + v.Name())
	return nil
}

func (fr *frame) set(v ssa.Value, x Value) {
	fr.env[fr.info.slots[v]] = x
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if v, ok := in.cc[c]; ok {
		return v
	}
	v := in.mkConst(c)
	in.cc[c] = v
	return v
}

func (in *Interp) mkConst(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return in.zero(t)
	}
	u := under(t)
	if tp, ok := u.(*types.Interface); ok && !tp.IsMethodSet() {
		in.unsupported("typeparam const")
	}
	b, ok := u.(*types.Basic)
	if !ok {
		in.unsupported("const of " + t.String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return in.ts.Bool(constant.BoolVal(c.Value))
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return in.str(constant.StringVal(c.Value))
		}
		return in.str(string(rune(c.Int64())))
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		if widthOf(b) == 32 {
			return in.ts.Const(uint64(math.Float32bits(float32(f))), 32)
		}
		return in.ts.Const(math.Float64bits(f), 64)
	case b.Info()&types.IsInteger != 0:
		w := widthOf(b)
		cv := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(cv); ok {
			return in.ts.Const(uint64(i), w)
		}
		ui, _ := constant.Uint64Val(cv)
		return in.ts.Const(ui, w)
	case b.Kind() == types.UnsafePointer:
		i, _ := constant.Uint64Val(constant.ToInt(c.Value))
		if i == 0 {
			return Ptr{}
		}
		return Ptr{raw: in.ts.Const(i, 64)}
	}
	return Poison{"const " + t.String()}
}

func (in *Interp) str(s string) Str {
	return Str{node: &BNode{kind: bConc, data: []byte(s)}, off: in.z64, len: in.ts.Const(uint64(len(s)), 64)}
}

func (in *Interp) k64(v int) *Term { return in.ts.Const(uint64(int64(v)), 64) }

// ---- globals and initialisation ----

func (in *Interp) global(g *ssa.Global) *Cell {
	if g.Pkg != nil && !in.P.isRepoPkg(g.Pkg) {
		if c, ok := in.std[g]; ok {
			return c
		}
		if !in.stdi[g.Pkg] {
			in.stdi[g.Pkg] = true
			in.initStd(g.Pkg)
			if c, ok := in.std[g]; ok {
				return c
			}
		}
		c := in.newCell(g.Type().(*types.Pointer).Elem())
		c.glob = g
		in.std[g] = c
		return c
	}
	if c, ok := in.glob[g]; ok {
		return c
	}
	c := in.newCell(g.Type().(*types.Pointer).Elem())
	c.glob = g
	in.glob[g] = c
	return c
}

// initStd runs the initialiser of a library package, tolerating what cannot be interpreted.
func (in *Interp) initStd(p *ssa.Package) {
	if skipInit(p.Pkg.Path()) {
		return
	}
	f := p.Func("init")
	if f == nil || f.Blocks == nil {
		return
	}
	in.runInit(f)
}

func (in *Interp) runInit(f *ssa.Function) {
	in.tol++
	steps := in.steps
	defer func() {
		in.tol--
		in.steps = steps
		if r := recover(); r != nil {
			if _, ok := r.(killSig); ok {
				panic(r)
			}
			if dbg {
				fmt.Fprintln(os.Stderr, "init", f, ":", fmtPanic(r))
			}
		}
	}()
	var top *frame
	if in.cur != nil {
		top = in.cur.top
	}
	in.callSSA(top, f, nil, nil)
	if in.cur != nil {
		in.cur.top = top
	}
}

func fmtPanic(r interface{}) string {
	switch x := r.(type) {
	case *abortSig:
		return x.res.kind + " " + x.res.msg
	case *goPanic:
		return "panic " + x.kind + " " + x.where
	}
	return fmt.Sprint(r)
}

// ---- calls ----

func (in *Interp) callSSA(caller *frame, fn *ssa.Function, args, binds []Value) Value {
	if in.tol > 0 && fn.Synthetic == "package initializer" && caller != nil && caller.fn != nil && caller.fn.Synthetic == fn.Synthetic {
		return nil
	}
	info := in.info(fn)
	if info.intr != nil {
		if in.tol == 0 {
			in.stubs[info.name]++
		}
		return info.intr(in, caller, fn, args)
	}
	if fn.Blocks == nil {
		if in.tol > 0 {
			return Poison{"no body " + fn.String()}
		}
		in.unsupported("no body: " + fn.String())
	}
	fr := &frame{in: in, g: in.cur, caller: caller, fn: fn, info: info, env: make([]Value, info.n)}
	if caller != nil {
		fr.depth = caller.depth + 1
		if fr.depth > in.cfg.MaxDepth {
			if in.tol > 0 {
				in.unsupported("init depth")
			}
			in.violate(fr, "overflow", "stack-overflow", "unbounded recursion")
		}
	}
	i := 0
	for range fn.Params {
		fr.env[i] = args[i]
		i++
	}
	for j := range fn.FreeVars {
		fr.env[i] = binds[j]
		i++
	}
	if info.repo && in.tol == 0 {
		in.encoded[fnKey(fn)]++
	}
	if in.cur != nil {
		in.cur.top = fr
	}
	fr.block = fn.Blocks[0]
	for fr.block != nil {
		in.runFrame(fr)
	}
	if in.cur != nil {
		in.cur.top = caller
	}
	return fr.result
}

func (in *Interp) runFrame(fr *frame) {
	ok := false
	defer func() {
		if ok {
			return
		}
		r := recover()
		switch x := r.(type) {
		case *goPanic:
			fr.pan = x
		case goexitSig:
			fr.goexit = true
			fr.pan = nil
		default:
			panic(r)
		}
		in.cur.top = fr
		in.runDefers(fr)
		if fr.goexit {
			panic(goexitSig{})
		}
		fr.block = fr.fn.Recover
		if fr.block == nil {
			// no named results: zero result
			res := fr.fn.Signature.Results()
			switch res.Len() {
			case 0:
				fr.result = nil
			case 1:
				fr.result = in.zero(res.At(0).Type())
			default:
				fr.result = in.zero(res)
			}
		}
	}()
	for fr.block != nil {
		in.blocks++
		b := fr.block
		// phis first, in parallel
		k := 0
		if len(b.Instrs) > 0 {
			if _, isphi := b.Instrs[0].(*ssa.Phi); isphi {
				pi := -1
				for i, p := range b.Preds {
					if p == fr.prev {
						pi = i
						break
					}
				}
				var vals []Value
				for ; k < len(b.Instrs); k++ {
					ph, isphi := b.Instrs[k].(*ssa.Phi)
					if !isphi {
						break
					}
					vals = append(vals, fr.get(ph.Edges[pi]))
				}
				for i := 0; i < k; i++ {
					fr.set(b.Instrs[i].(*ssa.Phi), vals[i])
				}
			}
		}
		jumped := false
		for ; k < len(b.Instrs); k++ {
			in.steps++
			if in.steps > in.cfg.MaxSteps {
				in.endless(fr, fmt.Sprintf("more than %d instructions on a path", in.cfg.MaxSteps))
			}
			if in.steps&0xfff == 0 && time.Now().After(in.cfg.Deadline) {
				panic(&abortSig{pathRes{"timeout", ""}})
			}
			fr.instr = b.Instrs[k]
			if in.tol > 0 && fr.fn.Synthetic == "package initializer" {
				if in.visitTol(fr, b.Instrs[k]) {
					jumped = true
					break
				}
				continue
			}
			if in.visit(fr, b.Instrs[k]) {
				jumped = true
				break
			}
		}
		if !jumped {
			in.unsupported("fell off block")
		}
	}
	ok = true
}

// visitTol executes an instruction of a package initialiser; what cannot be interpreted becomes poison.
func (in *Interp) visitTol(fr *frame, i ssa.Instruction) (j bool) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		why := ""
		switch x := r.(type) {
		case *abortSig:
			if x.res.kind != "unsupported" && x.res.kind != "limit" {
				panic(r)
			}
			why = x.res.msg
		case *goPanic:
			why = "panic " + x.kind
		default:
			panic(r)
		}
		if dbg {
			fmt.Fprintln(os.Stderr, "init poison:", in.where(fr), i, why)
		}
		switch x := i.(type) {
		case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
			panic(r)
		case ssa.Value:
			fr.set(x, Poison{why})
		}
		in.cur.top = fr
		j = false
	}()
	return in.visit(fr, i)
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				switch x := r.(type) {
				case *goPanic:
					fr.pan = x
					fr.recov = false
				case goexitSig:
					fr.goexit = true
				default:
					panic(r)
				}
			}()
			in.call(fr, d.fn, d.args)
			ok = true
		}()
	}
	if fr.pan != nil && !fr.goexit {
		panic(fr.pan)
	}
}

// call invokes a function value (closure, function or builtin).
func (in *Interp) call(fr *frame, fv Value, args []Value) Value {
	switch f := fv.(type) {
	case *Closure:
		if f == nil {
			in.nilDeref(fr, "call of nil function")
		}
		if f.nat != nil {
			return f.nat(in, args)
		}
		return in.callSSA(fr, f.fn, args, f.binds)
	case *ssa.Builtin:
		return in.builtin(fr, f, args, nil)
	case Poison:
		if in.tol > 0 {
			return f
		}
		in.unsupported("call of poison: " + f.why)
	}
	in.unsupported(fmt.Sprintf("call of %T", fv))
	return nil
}

func (in *Interp) callCommon(fr *frame, c *ssa.CallCommon) (Value, []Value) {
	if c.IsInvoke() {
		recv := fr.get(c.Value)
		if p, ok := recv.(Poison); ok {
			return p, nil
		}
		ifc := recv.(Iface)
		if ifc.t == nil {
			in.nilDeref(fr, "method call on nil interface")
		}
		fn := in.method(ifc.t, c.Method)
		args := make([]Value, 0, len(c.Args)+1)
		args = append(args, ifc.v)
		for _, a := range c.Args {
			args = append(args, fr.get(a))
		}
		if fn == nil {
			if nm, ok := ifc.v.(*NatObj); ok {
				return &Closure{nat: func(in *Interp, a []Value) Value { return nm.call(in, c.Method.Name(), a[1:]) }}, args
			}
			in.unsupported("no method " + c.Method.FullName() + " on " + ifc.t.String())
		}
		return &Closure{fn: fn}, args
	}
	fv := fr.get(c.Value)
	args := make([]Value, 0, len(c.Args))
	for _, a := range c.Args {
		args = append(args, fr.get(a))
	}
	return fv, args
}

func (in *Interp) method(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m}
	if f, ok := in.mcac[k]; ok {
		return f
	}
	f := in.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	in.mcac[k] = f
	return f
}

// ---- panics and violations ----

func (in *Interp) runtimePanic(fr *frame, kind, msg string) {
	var v Value
	if in.P.rtErr != nil {
		v = Iface{in.P.rtErr, in.str(msg)}
	} else {
		v = Iface{types.Typ[types.String], in.str(msg)}
	}
	panic(&goPanic{v: v, kind: kind, where: in.where(fr), fn: in.repoFn(fr)})
}

func (in *Interp) nilDeref(fr *frame, msg string) {
	if in.tol > 0 {
		in.unsupported("nil in init: " + msg)
	}
	in.runtimePanic(fr, "nil", "invalid memory address or nil pointer dereference")
}

// violate records a violation at the current point (with the current path condition) and ends the path.
func (in *Interp) violate(fr *frame, kind, label, detail string) {
	in.report(fr, kind, label, detail, nil)
	panic(&abortSig{pathRes{"violation", label}})
}

// report records a violation under pc ∧ extra if satisfiable.
func (in *Interp) report(fr *frame, kind, label, detail string, extra *Term) bool {
	r, m := in.sol.CheckFrom(in.pc, extra, in.model)
	if r == Sat && in.model != nil && extra != nil {
		// a counterexample must satisfy the whole path condition
		ok := m.eval(extra) == 1
		for _, t := range in.pc {
			ok = ok && m.eval(t) == 1
		}
		if !ok {
			r, m = in.sol.Check(in.pc, extra)
		}
	}
	if r == Unknown {
		in.cfg.note("solver gave no answer for " + kind + " " + label)
		return false
	}
	if r == Unsat {
		return false
	}
	v := &Violation{Kind: kind, Label: label, Where: in.where(fr), Detail: detail, Harness: in.cfg.Harness}
	switch kind {
	case "assert":
		v.Key = in.cfg.Harness + "/" + label
	default:
		v.Key = in.cfg.Harness + "/" + label + "@" + in.repoFn(fr)
	}
	v.Vec = in.vector(m)
	v.Sched = append([]schedEv(nil), in.events...)
	v.Threads = len(in.gs)
	v.Trail = append([]Dec(nil), in.trail...)
	in.viols = append(in.viols, v)
	return true
}

// vector extracts the inputs of the current path from model m.
func (in *Interp) vector(m *Model) *Vector {
	v := &Vector{Vals: map[string]uint64{}, Bytes: map[string]*BytesVal{}}
	for _, n := range in.nd {
		switch n.Kind {
		case "int":
			v.Vals[n.Name] = m.eval(n.T)
		case "choice":
			v.Vals[n.Name] = n.V
		case "bytes":
			l := m.eval(n.Len)
			bv := &BytesVal{Len: l, Set: map[string]uint64{}}
			for i, x := range m.sels[n.Arr] {
				if x != 0 && i < l {
					bv.Set[fmt.Sprint(i)] = x
				}
			}
			v.Bytes[n.Name] = bv
		}
	}
	return v
}

func (in *Interp) posOf(i ssa.Instruction) string {
	p := in.P.fset.Position(i.Pos())
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}
