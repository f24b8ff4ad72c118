package core

import (
	"context"
	"runtime"

	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
)

type inst struct {
	v   uint64
	pad [5000]uint64 // large enough for its memory to be returned when it is freed
}

// Handles performs a history of puts, removals and lookups.
//
//sv:harness prop=C24 time=60
//sv:bound 4 operations (6 in the thorough tier) on instances with any content, lookups of any 64-bit handle
func Handles() {
	l := invoke.NewLiveInstances[*inst]()
	n := 4
	if sv.Deep() {
		n = 6
	}
	var hs []uint64
	var vs []*inst
	var live []bool
	for i := 0; i < n; i++ {
		switch sv.Choose("op", 3) {
		case 0:
			v := &inst{v: sv.U64("v")}
			h := l.Put(v)
			for j := range hs {
				sv.Assert(!live[j] || hs[j] != h, "duplicate")
			}
			hs, vs, live = append(hs, h), append(vs, v), append(live, true)
		case 1:
			if len(hs) == 0 {
				continue
			}
			k := sv.Choose("which", len(hs))
			v, ok := l.Remove(hs[k])
			sv.Assert(ok == live[k], "remove")
			if ok {
				sv.Assert(v == vs[k], "remove-value")
			}
			live[k] = false
			sv.Reach("remove")
		case 2:
			h := sv.U64("h")
			v, ok := l.Get(h)
			want := -1
			for j := range hs {
				if live[j] && hs[j] == h {
					want = j
				}
			}
			sv.Assert(ok == (want >= 0), "get")
			if ok {
				sv.Assert(v == vs[want], "get-value")
				sv.Reach("hit")
			}
		}
	}
	for j := range hs {
		v, ok := l.Get(hs[j])
		sv.Assert(ok == live[j], "final")
		sv.Assert(!ok || v == vs[j], "final-value")
	}
	sv.Reach("done")
}

// HandlesConcurrent stores, looks up and removes from several goroutines.
//
//sv:harness prop=C24 sched=1 preempt=1 dpreempt=2
//sv:bound two goroutines that each store an instance, look it up, possibly remove it or an older one and look again; 1 preemption (2 in the thorough tier); data races are reported
func HandlesConcurrent() {
	sv.Races()
	l := invoke.NewLiveInstances[*inst]()
	var old, own [2]uint64
	for i := range old {
		old[i] = l.Put(&inst{v: uint64(i)})
	}
	var remove [2]int
	done := make(chan bool, 2)
	work := func(i int) {
		v := &inst{v: uint64(10 + i)}
		own[i] = l.Put(v)
		got, ok := l.Get(own[i])
		sv.Assert(ok && got == v, "own")
		switch remove[i] {
		case 1:
			got, ok = l.Remove(own[i])
			sv.Assert(ok && got == v, "removed")
			_, ok = l.Get(own[i])
			sv.Assert(!ok, "gone")
		case 2:
			got, ok = l.Remove(old[i])
			sv.Assert(ok && got.v == uint64(i), "removed-old")
		}
		done <- true
	}
	remove = [2]int{sv.Choose("first", 3), sv.Choose("second", 3)}
	go work(0)
	go work(1)
	<-done
	<-done
	for i := range own {
		v, ok := l.Get(own[i])
		sv.Assert(ok == (remove[i] != 1), "final")
		sv.Assert(!ok || v.v == uint64(10+i), "final-value")
		v, ok = l.Get(old[i])
		sv.Assert(ok == (remove[i] != 2), "final-old")
		sv.Assert(!ok || v.v == uint64(i), "final-old-value")
	}
	sv.Reach("done")
}

// Sizeless checks handles of instances without size.
//
//sv:harness prop=C24
//sv:bound two instances without size
func Sizeless() {
	l := invoke.NewLiveInstances[struct{}]()
	a, b := l.Put(struct{}{}), l.Put(struct{}{})
	sv.Assert(a != b, "duplicate")
	l.Remove(a)
	_, ok := l.Get(b)
	sv.Assert(ok, "collateral")
	_, ok = l.Get(a)
	sv.Assert(!ok, "removed")
	sv.Reach("done")
}

// Stale looks up handles that denote no live object. Natively it runs under a busy garbage collector.
//
//sv:harness prop=C24
//sv:bound any 64-bit handle that was never issued, or was issued and removed
func Stale() {
	l := invoke.NewLiveInstances[inst]()
	rounds, objects := 1, 1
	if !sv.Symbolic() {
		rounds, objects = 200, 1000
		go func() {
			for {
				runtime.GC()
			}
		}()
	}
	arbitrary := sv.U64("h")
	remove := sv.Bool("remove")
	var hs []uint64
	for i := 0; i < objects; i++ {
		hs = append(hs, l.Put(inst{}))
	}
	for _, h := range hs {
		sv.Assume(arbitrary != h)
		l.Remove(h)
	}
	if !sv.Symbolic() {
		runtime.GC()
		runtime.GC()
	}
	for i := 0; i < rounds; i++ {
		for _, h := range hs {
			if !stale(l, h, remove) {
				sv.Fail("removed")
			}
		}
		sv.Assert(stale(l, arbitrary, remove), "unknown")
	}
	sv.Reach("done")
}

//go:noinline
func stale(l *invoke.LiveInstances[inst], h uint64, remove bool) bool {
	var ok bool
	if remove {
		_, ok = l.Remove(h)
	} else {
		_, ok = l.Get(h)
	}
	return !ok
}

type stream struct{ id uint32 }

func (s *stream) Context() context.Context { return nil }
func (s *stream) StreamID() uint32         { return s.id }
func (s *stream) OnNext(payload.Payload)   {}
func (s *stream) OnComplete()              {}
func (s *stream) OnError(error)            {}
func (s *stream) OnCancel()                {}
func (s *stream) Open() bool               { return true }

// Streams performs a history of additions and removals.
//
//sv:harness prop=C25 time=120 dtime=600
//sv:bound 5 operations (7 in the thorough tier) on any 32-bit ids, each id live at most once, then any lookup
func Streams() {
	var l proxy.Lookup
	n := 5
	if sv.Deep() {
		n = 7
	}
	var ids []uint32
	var ss []*stream
	for i := 0; i < n; i++ {
		id := sv.U32("id")
		at := -1
		for j := range ids {
			if ids[j] == id {
				at = j
			}
		}
		if sv.Bool("add") {
			sv.Assume(at < 0)
			s := &stream{id}
			l.Add(s)
			ids, ss = append(ids, id), append(ss, s)
		} else {
			l.Remove(id)
			if at >= 0 {
				ids = append(append([]uint32{}, ids[:at]...), ids[at+1:]...)
				ss = append(append([]*stream{}, ss[:at]...), ss[at+1:]...)
				sv.Reach("removed")
			}
		}
		sv.Assert(l.Size() == len(ids), "size")
		sv.Assert(l.IsEmpty() == (len(ids) == 0), "empty")
	}
	for i := range ids {
		s, ok := l.Get(ids[i])
		sv.Assert(ok && s == proxy.Stream(ss[i]), "found")
	}
	q := sv.U32("q")
	known := false
	for _, id := range ids {
		known = sv.Or(known, id == q)
	}
	_, ok := l.Get(q)
	sv.Assert(ok == known, "lookup")
	sv.Reach("done")
}

// StreamsConcurrent adds, removes and looks up from several goroutines.
//
//sv:harness prop=C25 sched=1 preempt=1 dpreempt=2
//sv:bound two goroutines with two operations each on different ids, 1 preemption (2 in the thorough tier); data races are reported
func StreamsConcurrent() {
	sv.Races()
	var l proxy.Lookup
	a, b := &stream{1}, &stream{2}
	done := make(chan bool, 2)
	work := func(s *stream, remove bool) {
		l.Add(s)
		got, ok := l.Get(s.id)
		sv.Assert(ok && got == proxy.Stream(s), "own")
		if remove {
			l.Remove(s.id)
		}
		done <- true
	}
	ra, rb := sv.Bool("ra"), sv.Bool("rb")
	go work(a, ra)
	go work(b, rb)
	<-done
	<-done
	n := 0
	for i, r := range []bool{ra, rb} {
		_, ok := l.Get(uint32(i + 1))
		sv.Assert(ok == !r, "final")
		if !r {
			n++
		}
	}
	sv.Assert(l.Size() == n, "size")
	sv.Reach("done")
}

// BufferSteps performs a sequential history on the buffer.
//
//sv:harness prop=C26 time=60
//sv:bound 6 operations (8 in the thorough tier): put any value, read as the protocol says, load, dispose
func BufferSteps() {
	b := buffer.NewUnbounded[uint64]()
	n := 6
	if sv.Deep() {
		n = 8
	}
	var want []uint64
	disposed := false
	take := func() {
		select {
		case v, ok := <-b.Get():
			if !ok {
				sv.Assert(disposed && len(want) == 0, "closed-early")
				return
			}
			sv.Assert(len(want) > 0 && v == want[0], "order")
			want = want[1:]
			b.Load()
		default:
			sv.Assert(len(want) == 0, "withheld")
		}
	}
	for i := 0; i < n; i++ {
		switch sv.Choose("op", 4) {
		case 0:
			v := sv.U64("v")
			ok := b.Put(v)
			sv.Assert(ok == !disposed, "accept")
			if ok {
				want = append(want, v)
			}
		case 1:
			take()
		case 2:
			b.Load()
		case 3:
			b.Dispose()
			disposed = true
		}
	}
	for len(want) > 0 {
		k := len(want)
		take()
		sv.Assert(len(want) == k-1, "lost")
	}
	b.Dispose()
	_, ok := <-b.Get()
	sv.Assert(!ok, "open")
	sv.Assert(!b.Put(1), "accept-after")
	sv.Reach("done")
}

// BufferConcurrent has writers, a reader and a disposer run concurrently.
//
//sv:harness prop=C26 sched=1 preempt=2 dpreempt=3 time=60 dtime=600
//sv:bound two writers with two values each, one reader following the protocol, disposal by one of the writers at its end or by the reader's side before it reads; 2 preemptions (3 in the thorough tier); data races are reported
func BufferConcurrent() {
	sv.Races()
	b := buffer.NewUnbounded[int]()
	accepted := make([][]int, 2)
	finished := make(chan bool, 2)
	early := sv.Bool("early")
	for w := 0; w < 2; w++ {
		go func(w int) {
			for i := 0; i < 2; i++ {
				if b.Put(w*10 + i) {
					accepted[w] = append(accepted[w], i)
				}
			}
			if early && w == 0 {
				b.Dispose()
			}
			finished <- true
		}(w)
	}
	var got []int
	if !early {
		for len(got) < 4 {
			v, ok := <-b.Get()
			sv.Assert(ok, "closed-early")
			got = append(got, v)
			b.Load()
		}
		b.Dispose()
		b.Dispose()
		_, ok := <-b.Get()
		sv.Assert(!ok, "open")
	} else {
		for v := range b.Get() {
			got = append(got, v)
			b.Load()
		}
		sv.Reach("early")
	}
	<-finished
	<-finished
	var per [2][]int
	for _, v := range got {
		per[v/10] = append(per[v/10], v%10)
	}
	for w := 0; w < 2; w++ {
		sv.Assert(len(per[w]) == len(accepted[w]), "lost-or-twice")
		for i := range per[w] {
			sv.Assert(per[w][i] == accepted[w][i], "order")
		}
	}
	sv.Reach("done")
}
