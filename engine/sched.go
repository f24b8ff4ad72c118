package main

import (
	"fmt"
	"go/token"
	"go/types"
	"runtime/debug"

	"golang.org/x/tools/go/ssa"
)

// G is an interpreted goroutine, run by its own host goroutine under a baton.
type G struct {
	id      int
	top     *frame
	resume  chan struct{}
	ready   func() bool // nil = runnable
	done    bool
	low     bool // runs only when nothing else can (Quiesce)
	timer   bool // a timer waiting to fire
	exited  chan struct{}
	why     string
	started bool
	spawnBy string
}

type ChanObj struct {
	cap    int
	buf    []Value
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	elem   types.Type
	addr   uint64
	sx, rx int // sends and receives so far
}

type waiter struct {
	clk  vclock
	key  interface{}
	v    Value
	ok   bool
	done *bool
	idx  int
	pick *int
	boom bool
	self *waiter
	res  **waiter
}

func (in *Interp) newG(name string) *G {
	g := &G{id: len(in.gs), resume: make(chan struct{}), exited: make(chan struct{}), spawnBy: name}
	in.gs = append(in.gs, g)
	return g
}

// startG launches the host goroutine of g; it waits for the baton.
func (in *Interp) startG(g *G, body func()) {
	go func() {
		defer close(g.exited)
		<-g.resume
		if in.killed {
			g.done = true
			return
		}
		res := in.guard(body)
		g.done = true
		if in.killed {
			return
		}
		if res != nil {
			in.gdone <- *res
			return
		}
		if g.id == 0 {
			in.gdone <- pathRes{kind: "done"}
			return
		}
		// hand the baton on
		r := in.guard(func() { in.pickNext(g) })
		if r != nil {
			in.gdone <- *r
		}
	}()
}

// guard runs f and turns interpreter signals into a path result.
func (in *Interp) guard(f func()) (res *pathRes) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case *abortSig:
			res = &x.res
		case killSig:
		case goexitSig:
		case *goPanic:
			res = in.uncaught(x)
		default:
			res = &pathRes{"unsupported", fmt.Sprintf("engine: %v at %s", r, in.whereCur())}
			if dbg {
				debug.PrintStack()
			}
		}
	}()
	f()
	return nil
}

func (in *Interp) whereCur() string {
	if in.cur != nil && in.cur.top != nil {
		return in.where(in.cur.top)
	}
	return "?"
}

func (in *Interp) uncaught(p *goPanic) (res *pathRes) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(*abortSig); ok {
				res = &a.res
				return
			}
			panic(r)
		}
	}()
	detail := p.where
	if ifc, ok := p.v.(Iface); ok {
		if s, ok := ifc.v.(Str); ok {
			if cs, ok := in.concStr(s); ok {
				detail += ": " + cs
			}
		}
	}
	r, m := in.sol.Check(in.pc, nil)
	if r == Unsat {
		return &pathRes{kind: "infeasible"}
	}
	if r == Unknown {
		in.cfg.note("solver gave no answer for a panicking path")
		return &pathRes{kind: "limit", msg: "no answer for a panicking path"}
	}
	v := &Violation{Kind: "panic", Label: p.kind, Where: p.where, Detail: detail, Harness: in.cfg.Harness,
		Key: in.cfg.Harness + "/panic:" + p.kind + "@" + p.fn, Vec: in.vector(m), Trail: append([]Dec(nil), in.trail...),
		Sched: append([]schedEv(nil), in.events...), Threads: len(in.gs)}
	in.viols = append(in.viols, v)
	return &pathRes{"violation", p.kind}
}

func (in *Interp) runnable(not *G) []*G {
	var out, low []*G
	for _, g := range in.gs {
		if g == not || g.done {
			continue
		}
		if g.ready == nil || g.ready() {
			if g.low {
				low = append(low, g)
			} else {
				out = append(out, g)
			}
		}
	}
	if len(out) == 0 {
		return low
	}
	return out
}

// pickNext passes the baton from a finished goroutine.
func (in *Interp) pickNext(from *G) {
	rs := in.runnable(from)
	if len(rs) == 0 {
		in.deadlock()
	}
	g := rs[in.pickG(len(rs))]
	in.give(g)
}

func (in *Interp) give(g *G) {
	g.ready = nil
	in.cur = g
	g.resume <- struct{}{}
}

// switchTo parks the current goroutine and runs g.
func (in *Interp) switchTo(g *G) {
	me := in.cur
	in.give(g)
	<-me.resume
	if in.killed {
		panic(killSig{})
	}
	in.cur = me
}

// schedPoint offers a preemption.
func (in *Interp) schedPoint() {
	if len(in.gs) < 2 || in.tol > 0 || in.preempt >= in.maxPre {
		return
	}
	rs := in.runnable(in.cur)
	var cand []*G
	for _, g := range rs {
		if !g.low {
			cand = append(cand, g)
		}
	}
	if len(cand) == 0 {
		return
	}
	k := in.choose(len(cand) + 1)
	if k == 0 {
		return
	}
	in.preempt++
	in.event(cand[k-1])
	in.switchTo(cand[k-1])
}

// pickG chooses the next goroutine, or takes the first one when schedules are not of interest.
func (in *Interp) pickG(n int) int {
	if in.maxPre < 0 {
		return 0
	}
	return in.choose(n)
}

// gosched gives way to some other runnable goroutine, without spending preemption budget.
func (in *Interp) gosched() {
	rs := in.runnable(in.cur)
	if len(rs) == 0 || rs[0].low {
		in.spins++
		if in.spins > in.cfg.MaxSpin {
			in.limit("spinning without progress")
		}
		return
	}
	in.switchTo(rs[in.pickG(len(rs))])
}

// block parks the current goroutine until ready holds.
func (in *Interp) block(why string, ready func() bool) {
	if ready() {
		return
	}
	if in.tol > 0 {
		in.unsupported("blocking in init")
	}
	me := in.cur
	me.why = why
	me.ready = ready
	rs := in.runnable(me)
	if len(rs) == 0 {
		if ready() {
			me.ready = nil
			return
		}
		in.deadlock()
	}
	in.switchTo(rs[in.pickG(len(rs))])
}

func (in *Interp) deadlock() {
	g := in.gs[0]
	why := g.why
	label := "deadlock"
	w := ""
	if g.top != nil {
		w = in.where(g.top)
	}
	in.cur = g
	in.violate(g.top, "deadlock", label, "main goroutine blocked forever in "+why+" at "+w)
}

func (in *Interp) spawn(fr *frame, fv Value, args []Value) {
	if in.tol > 0 {
		return
	}
	if c, ok := fv.(*Closure); ok && c == nil {
		in.nilDeref(fr, "go nil")
	}
	if len(in.gs) >= in.cfg.MaxG {
		in.limit("more goroutines than the bound")
	}
	g := in.newG(in.where(fr))
	in.hbFork(g)
	in.startG(g, func() {
		in.call(nil, fv, args)
	})
	in.schedPoint()
}

// ---- channels ----

func (in *Interp) ch(fr *frame, v Value) *ChanObj {
	switch c := v.(type) {
	case *ChanObj:
		return c
	case Poison:
		in.unsupported("poison channel")
	}
	in.unsupported(fmt.Sprintf("channel %T", v))
	return nil
}

func popLive(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

func hasLive(q []*waiter) bool {
	for _, w := range q {
		if !*w.done {
			return true
		}
	}
	return false
}

func (w *waiter) fire() {
	*w.done = true
	if w.pick != nil {
		*w.pick = w.idx
	}
	if w.res != nil {
		*w.res = w
	}
}

func (in *Interp) trySend(fr *frame, c *ChanObj, v Value) bool {
	if c.closed {
		in.runtimePanic(fr, "closedsend", "send on closed channel")
	}
	if w := popLive(&c.recvq); w != nil {
		w.v, w.ok = v, true
		w.fire()
		w.key = in.hbSend(c)
		c.rx = c.sx
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		in.hbSend(c)
		return true
	}
	return false
}

func (in *Interp) chanSend(fr *frame, cv Value, v Value) {
	c := in.ch(fr, cv)
	in.schedPoint()
	if c == nil {
		in.block("send on nil channel", func() bool { return false })
	}
	if in.trySend(fr, c, v) {
		return
	}
	done := false
	w := &waiter{v: v, done: &done}
	c.sendq = append(c.sendq, w)
	in.hbWait(w)
	in.block("channel send", func() bool { return done })
	if w.boom {
		in.runtimePanic(fr, "closedsend", "send on closed channel")
	}
	in.hbWoken(c, w)
}

func (in *Interp) tryRecv(c *ChanObj) (Value, bool, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		in.hbRecv(c)
		if w := popLive(&c.sendq); w != nil {
			c.buf = append(c.buf, w.v)
			w.fire()
			in.hbMoved(c, w)
		}
		return v, true, true
	}
	if w := popLive(&c.sendq); w != nil {
		w.fire()
		if in.races {
			in.oclk[c] = in.vjoin(append(vclock(nil), in.oclk[c]...), w.clk)
		}
		in.hbSync(c)
		return w.v, true, true
	}
	if c.closed {
		in.hbSync(c)
		return in.zero(c.elem), false, true
	}
	return nil, false, false
}

func (in *Interp) chanRecv(fr *frame, cv Value, elem types.Type) (Value, bool) {
	c := in.ch(fr, cv)
	in.schedPoint()
	if c == nil {
		in.block("receive from nil channel", func() bool { return false })
	}
	if v, ok, done := in.tryRecv(c); done {
		return v, ok
	}
	done := false
	w := &waiter{done: &done}
	c.recvq = append(c.recvq, w)
	in.block("channel receive", func() bool { return done })
	in.hbWoken(c, w)
	if w.v == nil {
		w.v = in.zero(elem)
	}
	return w.v, w.ok
}

func (in *Interp) chanClose(fr *frame, cv Value) {
	c := in.ch(fr, cv)
	in.schedPoint()
	if c == nil {
		in.runtimePanic(fr, "closenil", "close of nil channel")
	}
	if c.closed {
		in.runtimePanic(fr, "closeclosed", "close of closed channel")
	}
	c.closed = true
	in.hbSync(c)
	for {
		w := popLive(&c.recvq)
		if w == nil {
			break
		}
		w.v, w.ok = in.zero(c.elem), false
		w.fire()
	}
	for {
		w := popLive(&c.sendq)
		if w == nil {
			break
		}
		w.boom = true
		w.fire()
	}
}

func (in *Interp) sel(fr *frame, i *ssa.Select) Value {
	in.schedPoint()
	type st struct {
		c    *ChanObj
		send bool
		v    Value
	}
	var states []st
	for _, s := range i.States {
		x := st{c: in.ch(fr, fr.get(s.Chan)), send: s.Dir == types.SendOnly}
		if x.send {
			x.v = fr.get(s.Send)
		}
		states = append(states, x)
	}
	result := func(idx int, v Value, ok bool) Value {
		r := Tuple{in.k64(idx), in.ts.Bool(ok)}
		for k, s := range i.States {
			if s.Dir == types.RecvOnly {
				e := under(s.Chan.Type()).(*types.Chan).Elem()
				if k == idx && v != nil {
					r = append(r, v)
				} else {
					r = append(r, in.zero(e))
				}
			}
		}
		return r
	}
	var ready []int
	for k, s := range states {
		if s.c == nil {
			continue
		}
		if s.send {
			if s.c.closed || hasLive(s.c.recvq) || len(s.c.buf) < s.c.cap {
				ready = append(ready, k)
			}
		} else if len(s.c.buf) > 0 || hasLive(s.c.sendq) || s.c.closed {
			ready = append(ready, k)
		}
	}
	if len(ready) > 0 {
		k := ready[in.choose(len(ready))]
		s := states[k]
		if s.send {
			in.trySend(fr, s.c, s.v)
			return result(k, nil, false)
		}
		v, ok, _ := in.tryRecv(s.c)
		return result(k, v, ok)
	}
	if !i.Blocking {
		return result(-1, nil, false)
	}
	done, pick := false, -1
	var fired *waiter
	for k, s := range states {
		if s.c == nil {
			continue
		}
		w := &waiter{v: s.v, done: &done, idx: k, pick: &pick, res: &fired}
		if s.send {
			in.hbWait(w)
			s.c.sendq = append(s.c.sendq, w)
		} else {
			s.c.recvq = append(s.c.recvq, w)
		}
	}
	in.block("select", func() bool { return done })
	s := states[pick]
	in.hbWoken(s.c, fired)
	if s.send {
		if fired.boom {
			in.runtimePanic(fr, "closedsend", "send on closed channel")
		}
		return result(pick, nil, false)
	}
	return result(pick, fired.v, fired.ok)
}

// ---- mutexes and friends ----

type mutexState struct {
	locked  bool
	readers int
	wwait   int
}

func (in *Interp) mutex(v Value) *mutexState {
	p, _ := v.(Ptr)
	if p.c == nil {
		in.nilDeref(in.cur.top, "mutex")
	}
	m, _ := in.side[p.c].(*mutexState)
	if m == nil {
		m = &mutexState{}
		in.side[p.c] = m
	}
	return m
}

func (in *Interp) lock(fr *frame, v Value) {
	m := in.mutex(v)
	in.schedPoint()
	if m.locked || m.readers > 0 {
		m.wwait++
		in.block("mutex lock", func() bool { return !m.locked && m.readers == 0 })
		m.wwait--
	}
	m.locked = true
	in.hbAcq(readers{m})
	in.hbSync(m)
}

func (in *Interp) unlock(fr *frame, v Value) {
	m := in.mutex(v)
	if !m.locked {
		in.violate(fr, "panic", "unlock of unlocked mutex", "fatal error: sync: unlock of unlocked mutex")
	}
	in.hbSync(m)
	m.locked = false
	in.schedPoint()
}

func (in *Interp) rlock(fr *frame, v Value) {
	m := in.mutex(v)
	in.schedPoint()
	if m.locked || m.wwait > 0 {
		in.block("mutex rlock", func() bool { return !m.locked })
	}
	m.readers++
	in.hbAcq(m)
}

func (in *Interp) runlock(fr *frame, v Value) {
	m := in.mutex(v)
	if m.readers == 0 {
		in.violate(fr, "panic", "runlock of unlocked mutex", "fatal error: sync: RUnlock of unlocked RWMutex")
	}
	in.hbRel(readers{m})
	m.readers--
	in.schedPoint()
}

var _ = token.NoPos

// Happens-before tracking is optional; see race.go.
