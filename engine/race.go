package main

// Vector-clock happens-before tracking. When the harness asks for it (sv.Races()), unsynchronised
// conflicting accesses to the same map or variable of repository code are reported.

type vclock []int

type accInfo struct {
	wg  int // goroutine of last write, -1 none
	wc  int
	wat string
	rd  map[int]int
	rat map[int]string
}

func (in *Interp) clock(g *G) vclock {
	for len(in.vc) <= g.id {
		v := make(vclock, len(in.vc)+1)
		v[len(in.vc)] = 1
		in.vc = append(in.vc, v)
	}
	return in.vc[g.id]
}

func (in *Interp) vjoin(a, b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}

// hbFork orders everything before the go statement before the new goroutine.
func (in *Interp) hbFork(g *G) {
	if !in.races {
		return
	}
	me := in.clock(in.cur)
	ch := in.clock(g)
	in.vc[g.id] = in.vjoin(ch, me)
	in.tick(in.cur)
}

func (in *Interp) tick(g *G) {
	c := in.clock(g)
	for len(c) <= g.id {
		c = append(c, 0)
	}
	c[g.id]++
	in.vc[g.id] = c
}

// hbSync is an acquire-release on object o.
func (in *Interp) hbSync(o interface{}) {
	if !in.races {
		return
	}
	me := in.clock(in.cur)
	oc := in.oclk[o]
	me = in.vjoin(me, oc)
	in.vc[in.cur.id] = me
	in.oclk[o] = append(vclock(nil), me...)
	in.tick(in.cur)
}

// hbAcq orders everything released to o before what follows.
func (in *Interp) hbAcq(o interface{}) {
	if !in.races {
		return
	}
	in.vc[in.cur.id] = in.vjoin(in.clock(in.cur), in.oclk[o])
}

// hbRel orders everything so far before later acquisitions of o.
func (in *Interp) hbRel(o interface{}) {
	if !in.races {
		return
	}
	me := in.clock(in.cur)
	in.oclk[o] = in.vjoin(append(vclock(nil), in.oclk[o]...), me)
	in.tick(in.cur)
}

// slot is one element of a channel's buffer; readers stands for the readers of a lock.
type slot struct {
	c *ChanObj
	i int
}
type readers struct{ m *mutexState }

// hbSend and hbRecv synchronise like the next send to or receive from c does: through the element of
// the buffer it uses, or with everyone when there is no buffer.
func (in *Interp) hbSend(c *ChanObj) interface{} {
	if c.cap == 0 {
		in.hbSync(c)
		return c
	}
	k := slot{c, c.sx % c.cap}
	c.sx++
	in.hbSync(k)
	return k
}

func (in *Interp) hbRecv(c *ChanObj) interface{} {
	if c.cap == 0 {
		in.hbSync(c)
		return c
	}
	k := slot{c, c.rx % c.cap}
	c.rx++
	in.hbSync(k)
	return k
}

// hbMoved is the send of a waiting sender that takes place now.
func (in *Interp) hbMoved(c *ChanObj, w *waiter) {
	k := slot{c, c.sx % c.cap}
	c.sx++
	w.key = k
	if in.races {
		in.oclk[k] = in.vjoin(append(vclock(nil), in.oclk[k]...), w.clk)
	}
}

// hbWait remembers what precedes a send that has to wait.
func (in *Interp) hbWait(w *waiter) {
	if in.races {
		w.clk = append(vclock(nil), in.clock(in.cur)...)
		in.tick(in.cur)
	}
}

// hbWoken is the completion of an operation on c that had to wait.
func (in *Interp) hbWoken(c *ChanObj, w *waiter) {
	if w.key != nil {
		in.hbSync(w.key)
		return
	}
	in.hbSync(c)
}

func (in *Interp) ordered(g, c int) bool {
	me := in.clock(in.cur)
	return g < len(me) && me[g] >= c
}

func (in *Interp) access(fr *frame, c *Cell, write bool) {
	if !in.races || in.tol > 0 || !fr.info.repo {
		return
	}
	if c.acc == nil {
		c.acc = &accInfo{wg: -1}
	}
	in.race(fr, c.acc, write, c)
}

func (in *Interp) raceMap(fr *frame, m *MapObj, write bool) {
	if !in.races || in.tol > 0 || m == nil || fr == nil || !fr.info.repo {
		return
	}
	a, _ := in.side[m].(*accInfo)
	if a == nil {
		a = &accInfo{wg: -1}
		in.side[m] = a
	}
	in.race(fr, a, write, m)
}

func (in *Interp) race(fr *frame, a *accInfo, write bool, o interface{}) {
	g := in.cur.id
	if a.wg >= 0 && a.wg != g && !in.ordered(a.wg, a.wc) {
		in.violate(fr, "race", "data-race", "access not ordered after the write at "+a.wat)
	}
	if write {
		for rg, rc := range a.rd {
			if rg != g && !in.ordered(rg, rc) {
				in.violate(fr, "race", "data-race", "write not ordered after the read at "+a.rat[rg])
			}
		}
		a.wg, a.wc, a.wat = g, in.clock(in.cur)[g], in.where(fr)
		a.rd, a.rat = nil, nil
		return
	}
	if a.rd == nil {
		a.rd, a.rat = map[int]int{}, map[int]string{}
	}
	a.rd[g] = in.clock(in.cur)[g]
	a.rat[g] = in.where(fr)
}
