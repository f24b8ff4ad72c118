package rx

import (
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// later is an awaitable that finishes when told to.
type later struct {
	started  int
	fns      []rx.FnFinally
	finished bool
	twice    bool
}

func (l *later) Async() { l.started++ }
func (l *later) Notify(fn rx.FnFinally) {
	if l.finished {
		fn(rx.SignalComplete)
		return
	}
	l.fns = append(l.fns, fn)
}
func (l *later) finish() {
	l.finished = true
	for _, fn := range l.fns {
		fn(rx.SignalComplete)
		if l.twice {
			fn(rx.SignalComplete)
		}
	}
}

// pendingAwait is an awaitable of some kind together with how to finish it.
type pendingAwait struct {
	a        await.Awaitable
	finish   func()
	finished bool
}

func drawAwait() *pendingAwait {
	p := &pendingAwait{}
	switch sv.Choose("await", 5) {
	case 0:
		p.a, p.finished = mono.Just(uint64(1)), true
	case 1:
		p.a, p.finished = flux.Error[uint64](errB), true
	case 2:
		q := mono.NewProcessor[uint64]()
		q.Subscribe(mono.Subscribe[uint64]{})
		p.a = q
		fails := sv.Bool("awaitfails")
		p.finish = func() {
			if fails {
				q.Error(errB)
			} else {
				q.Success(2)
			}
		}
	case 3:
		q := flux.NewProcessor[uint64]()
		q.Subscribe(flux.Subscribe[uint64]{NoRequest: true})
		p.a = q
		p.finish = func() { q.Next(1); q.Complete() }
	case 4:
		l := &later{twice: true}
		p.a, p.finish = l, l.finish
	}
	return p
}

// FlowSteps runs a flow with awaits of every kind, finished in any order.
//
//sv:harness prop=C34 time=120 dtime=600
//sv:bound 3 steps with up to 2 awaits each in the first two, of 5 kinds (constant mono, constant error flux, mono and flux processors, one that notifies twice), finished in any order; any step may fail, end the flow, or answer; mono and stream flows
func FlowSteps() {
	const n = 3
	asFlux := sv.Bool("flux")
	f := flow.New[uint64]()
	var awaits [n][]*pendingAwait
	ran := 0
	stopped := false
	answered := 0
	var wantErr error
	val := sv.U64("val")
	mk := func(i int) flow.StepFn {
		return func() (await.Group, error) {
			sv.Assert(ran == i, "order")
			sv.Assert(!stopped, "after-stop")
			if i > 0 {
				for _, p := range awaits[i-1] {
					sv.Assert(p.finished, "started-early")
				}
			}
			ran++
			kinds := 4
			if i == n-1 {
				kinds = 5
			}
			switch sv.Choose("step", kinds) {
			case 0:
				stopped = true
				wantErr = errA
				return nil, errA
			case 1:
				stopped = true
				return f.End()
			case 2:
				stopped = true
				wantErr = errB
				return f.Error(errB)
			case 3:
				if i == n-1 {
					return nil, nil
				}
				var g await.Group
				for j := sv.Choose("awaits", 3); j > 0; j-- {
					p := drawAwait()
					awaits[i] = append(awaits[i], p)
					g = append(g, p.a)
				}
				return g, nil
			case 4:
				answered = 1
				stopped = true
				if asFlux {
					f.Next(val)
					return f.Complete()
				}
				return f.Success(val)
			}
			return nil, nil
		}
	}
	f.Steps(mk(0), mk(1)).Steps(mk(2))
	p, q := &probe{}, &fluxProbe{}
	if asFlux {
		sub := q.subscribe()
		sub.NoRequest = true
		f.Flux().Subscribe(sub)
	} else {
		f.Mono().Subscribe(p.subscribe())
	}
	for i := 0; i < n; i++ {
		if ran <= i {
			break
		}
		// finish the awaits of the step just run in any order
		for {
			var open []*pendingAwait
			for _, a := range awaits[i] {
				if !a.finished {
					open = append(open, a)
				}
			}
			if len(open) == 0 {
				break
			}
			sv.Assert(ran == i+1, "started-early")
			k := 0
			if len(open) > 1 {
				k = sv.Choose("which", len(open))
			}
			open[k].finished = true
			open[k].finish()
		}
		if !stopped && i < n-1 {
			sv.Assert(ran > i+1, "stalled")
		}
	}
	if stopped {
		sv.Reach("stopped")
	} else {
		sv.Assert(ran == n, "unfinished")
	}
	if asFlux {
		o := &fluxOutcome{}
		if answered == 1 {
			o.vals = []uint64{val}
			o.end(rx.SignalComplete, nil)
		}
		if wantErr != nil {
			o.end(rx.SignalError, wantErr)
		}
		q.check(o)
	} else {
		o := &outcome{done: answered == 1 || wantErr != nil, v: val, err: wantErr}
		p.check(o)
	}
	sv.Reach("done")
}

// FlowEarly answers from a step that is not the last.
//
//sv:harness prop=C34
//sv:bound two steps, the first one answering without awaits or with one
func FlowEarly() {
	f := flow.New[uint64]()
	second := 0
	l := &later{}
	with := sv.Bool("with")
	p := &probe{}
	v := sv.U64("v")
	f.Steps(func() (await.Group, error) {
		g, err := f.Success(v)
		sv.Assert(err == nil, "error")
		if with {
			return await.All(l)
		}
		return g, err
	}, func() (await.Group, error) {
		sv.Assert(l.finished || !with, "started-early")
		second++
		return f.End()
	}).Mono().Subscribe(p.subscribe())
	p.check(&outcome{done: true, v: v})
	sv.Assert(second == 0, "ran")
	if with {
		sv.Assert(l.started == 1, "started")
		l.finish()
		sv.Assert(second == 1, "stalled")
	}
	sv.Reach("done")
}

// FlowEarlyFlux ends a stream from a step that is not the last.
//
//sv:harness prop=C34
//sv:bound two steps, the first one emitting and completing or failing, without awaits or with one that starts when awaited (the flow of a mapped computation)
func FlowEarlyFlux() {
	f := flow.New[uint64]()
	second, starts := 0, 0
	var sink mono.Sink[uint64]
	l := &lazyMono{mono.Create(func(s mono.Sink[uint64]) { sink = s }), &starts}
	with, fails := sv.Bool("with"), sv.Bool("fails")
	p := &fluxProbe{}
	v := sv.U64("v")
	sub := p.subscribe()
	sub.NoRequest = true
	o := &fluxOutcome{vals: []uint64{v}}
	m := mono.Map[uint64, uint64](l, func(v uint64) (uint64, error) { return v + 1, nil })
	f.Steps(func() (await.Group, error) {
		f.Next(v)
		if fails {
			return f.Error(errA)
		}
		g, err := f.Complete()
		sv.Assert(err == nil, "error")
		if with {
			return await.All(m)
		}
		return g, err
	}, func() (await.Group, error) {
		second++
		got, err := m.Get()
		sv.Assert(err == nil && got == 4, "await")
		return f.End()
	}).Flux().Subscribe(sub)
	if fails {
		o.end(rx.SignalError, errA)
	} else {
		o.end(rx.SignalComplete, nil)
	}
	p.check(o)
	sv.Assert(second == 0, "ran")
	if with && !fails {
		sv.Assert(starts == 1, "started")
		sink.Success(3)
		sv.Assert(second == 1, "stalled")
		sv.Reach("awaited")
	}
	sv.Reach("done")
}

// FlowConcurrent finishes the awaits of a step from different goroutines.
//
//sv:harness prop=C34 sched=1 preempt=2 dpreempt=3 time=60 dtime=400
//sv:bound a first step awaiting two processors finished by two goroutines, possibly before it runs; 2 preemptions (3 in the thorough tier); data races are reported
func FlowConcurrent() {
	sv.Races()
	f := flow.New[uint64]()
	a := mono.NewProcessor[uint64]()
	b := flux.NewProcessor[uint64]()
	a.Subscribe(mono.Subscribe[uint64]{})
	b.Subscribe(flux.Subscribe[uint64]{NoRequest: true})
	answer := make(chan uint64, 2)
	ran := 0
	go func() { a.Success(1) }()
	go func() { b.Complete() }()
	f.Steps(func() (await.Group, error) {
		return await.All(a, b)
	}, func() (await.Group, error) {
		ran++
		v, err := a.Get()
		sv.Assert(err == nil && v == 1, "await")
		return f.Success(v + 1)
	}).Mono().Subscribe(mono.Subscribe[uint64]{OnSuccess: func(v uint64) { answer <- v }})
	v := <-answer
	sv.Assert(v == 2, "answer")
	sv.Quiesce()
	sv.Assert(ran == 1 && len(answer) == 0, "twice")
	sv.Reach("done")
}
