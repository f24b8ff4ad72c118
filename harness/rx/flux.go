package rx

import (
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// fluxOutcome is what a subscriber must see: elements, then possibly a terminal event.
type fluxOutcome struct {
	vals   []uint64
	done   bool
	signal rx.SignalType
	err    error
}

func (o *fluxOutcome) end(s rx.SignalType, err error) {
	if !o.done {
		o.done, o.signal, o.err = true, s, err
	}
}

// fluxProbe is a subscriber that checks the order of what it receives.
type fluxProbe struct {
	vals                   []uint64
	completes, errs, final int
	err                    error
	signal                 rx.SignalType
	sub                    rx.Subscription
	asks                   int
}

func (p *fluxProbe) ended() bool { return p.completes+p.errs+p.final > 0 }

func (p *fluxProbe) subscribe() flux.Subscribe[uint64] {
	return flux.Subscribe[uint64]{
		OnNext: func(v uint64) {
			sv.Assert(!p.ended(), "element-after-end")
			p.vals = append(p.vals, v)
		},
		OnComplete: func() {
			sv.Assert(!p.ended(), "complete-after-end")
			p.completes++
		},
		OnError: func(err error) {
			sv.Assert(!p.ended(), "error-after-end")
			p.errs++
			p.err = err
		},
		OnRequest: func(s rx.Subscription) {
			sv.Assert(!p.ended(), "request-after-end")
			p.sub = s
			p.asks++
		},
		Finally: func(s rx.SignalType) {
			p.final++
			p.signal = s
		},
	}
}

func (p *fluxProbe) check(o *fluxOutcome) {
	sv.Assert(len(p.vals) == len(o.vals), "elements")
	for i := range o.vals {
		sv.Assert(p.vals[i] == o.vals[i], "element-value")
	}
	c, e, f := 0, 0, 0
	if o.done {
		f = 1
		switch o.signal {
		case rx.SignalComplete:
			c = 1
		case rx.SignalError:
			e = 1
		}
		sv.Assert(p.final == 1, "final")
		sv.Assert(p.signal == o.signal, "final-signal")
	}
	sv.Assert(p.completes == c, "complete")
	sv.Assert(p.errs == e, "error")
	sv.Assert(p.err == o.err, "error-value")
	sv.Assert(p.final == f, "final-count")
}

// fluxSource drives a flux with a history of signals.
type fluxSource struct {
	f       flux.Flux[uint64]
	sink    flux.Sink[uint64]
	o       fluxOutcome
	ls      []*listener
	ps      *fluxProbe
	cancels int
	live    bool // subscribed
}

func (s *fluxSource) hooks() {
	s.sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { s.cancels++ }})
}

func (s *fluxSource) step() {
	switch sv.Choose("op", 5) {
	case 0:
		v := sv.U64("v")
		if !s.o.done {
			s.o.vals = append(s.o.vals, v)
		}
		s.sink.Next(v)
	case 1:
		s.o.end(rx.SignalComplete, nil)
		s.sink.Complete()
	case 2:
		s.o.end(rx.SignalError, errA)
		s.sink.Error(errA)
	case 3:
		l := &listener{}
		s.ls = append(s.ls, l)
		s.f.Notify(l.fn)
	case 4:
		if !s.live {
			return
		}
		s.o.end(rx.SignalCancel, nil)
		s.f.Subscription().Cancel()
	}
}

func (s *fluxSource) check() {
	s.ps.check(&s.o)
	for _, l := range s.ls {
		if !s.o.done {
			sv.Assert(l.n == 0, "listener-early")
			continue
		}
		sv.Assert(l.n == 1, "listener")
		sv.Assert(l.signal == s.o.signal, "listener-signal")
		sv.Reach("listened")
	}
	if s.o.done {
		sv.Reach("ended")
	}
	sv.Reach("done")
}

// FluxSignals lets the source signal during or after the subscription.
//
//sv:harness prop=C31 time=60 dtime=400
//sv:bound 4 steps (5 in the thorough tier), each an element of any value, completion, an error, a listener registration or a cancellation, taken inside the source function, after it, or split between the two at any point; listeners may also register before the subscription
func FluxSignals() {
	s := &fluxSource{ps: &fluxProbe{}}
	n := steps(4, 5)
	inside := sv.Choose("inside", n+1)
	hooks := false
	s.f = flux.Create(func(sink flux.Sink[uint64]) {
		s.sink = sink
		s.live = true
		if sv.Bool("hooks") {
			s.hooks()
			hooks = true
		}
		for i := 0; i < inside; i++ {
			s.step()
		}
	})
	if sv.Bool("before") {
		l := &listener{}
		s.ls = append(s.ls, l)
		s.f.Notify(l.fn)
	}
	s.f.Async()
	ret := s.f.Subscribe(s.ps.subscribe())
	sv.Assert(ret == s.f, "chain")
	for i := inside; i < n; i++ {
		s.step()
	}
	s.check()
	if hooks {
		sv.Assert((s.cancels == 1) == (s.o.done && s.o.signal == rx.SignalCancel), "cancels")
	}
}

// FluxProcessor signals a processor before and after its subscription.
//
//sv:harness prop=C31 time=60 dtime=400
//sv:bound 4 steps (5 in the thorough tier) with the subscription at any point between them
func FluxProcessor() {
	p := flux.NewProcessor[uint64]()
	s := &fluxSource{f: p, sink: p, ps: &fluxProbe{}}
	n := steps(4, 5)
	at := sv.Choose("at", n+1)
	if sv.Bool("hooks") {
		s.hooks()
	}
	for i := 0; i < n; i++ {
		if i == at {
			p.Subscribe(s.ps.subscribe())
			s.live = true
		}
		s.step()
	}
	if at == n {
		p.Subscribe(s.ps.subscribe())
	}
	s.check()
}

// FluxNested signals, cancels and registers from inside the callbacks.
//
//sv:harness prop=C31
//sv:bound one of a listener registration, completion, an error or a cancellation inside any callback of the subscriber or a listener
func FluxNested() {
	s := &fluxSource{ps: &fluxProbe{}}
	s.f = flux.Create(func(sink flux.Sink[uint64]) { s.sink = sink })
	sub := s.ps.subscribe()
	where, what := sv.Choose("where", 5), sv.Choose("what", 4)
	inner, used := &listener{}, false
	nest := func(at int) {
		if at != where || used {
			return
		}
		used = true
		switch what {
		case 0:
			s.f.Notify(inner.fn)
		case 1:
			s.o.end(rx.SignalComplete, nil)
			s.sink.Complete()
		case 2:
			s.o.end(rx.SignalError, errB)
			s.sink.Error(errB)
		case 3:
			s.o.end(rx.SignalCancel, nil)
			s.f.Subscription().Cancel()
		}
	}
	next, complete, fail, fin := sub.OnNext, sub.OnComplete, sub.OnError, sub.Finally
	sub.OnNext = func(v uint64) { next(v); nest(0) }
	sub.OnComplete = func() { complete(); nest(1) }
	sub.OnError = func(err error) { fail(err); nest(2) }
	sub.Finally = func(sig rx.SignalType) { fin(sig); nest(3) }
	outer := &listener{}
	s.ls = append(s.ls, outer)
	s.f.Notify(func(sig rx.SignalType) { outer.fn(sig); nest(4) })
	s.f.Subscribe(sub)
	v := sv.U64("v")
	s.o.vals = append(s.o.vals, v)
	s.sink.Next(v)
	w := sv.U64("w")
	if !s.o.done {
		s.o.vals = append(s.o.vals, w)
	}
	s.sink.Next(w)
	switch sv.Choose("end", 3) {
	case 0:
		s.o.end(rx.SignalComplete, nil)
		s.sink.Complete()
	case 1:
		s.o.end(rx.SignalError, errA)
		s.sink.Error(errA)
	case 2:
		s.o.end(rx.SignalCancel, nil)
		s.f.Subscription().Cancel()
	}
	if used && what == 0 {
		s.ls = append(s.ls, inner)
	}
	s.check()
}

// FluxError checks constant-error streams.
//
//sv:harness prop=C31
//sv:bound listeners before and after the subscription; the subscription object is usable
func FluxError() {
	f := flux.Error[uint64](errA)
	l := &listener{}
	before := sv.Bool("before")
	f.Async()
	if before {
		f.Notify(l.fn)
	}
	p := &fluxProbe{}
	f.Subscribe(p.subscribe())
	if !before {
		f.Notify(l.fn)
	}
	o := &fluxOutcome{}
	o.end(rx.SignalError, errA)
	p.check(o)
	sv.Assert(l.n == 1 && l.signal == rx.SignalError, "listener")
	f.Subscribe(flux.Subscribe[uint64]{})
	if s := f.Subscription(); s != nil {
		s.Request(1)
		s.Cancel()
	}
	p.check(o)
	sv.Reach("done")
}

// FluxBare subscribes without callbacks.
//
//sv:harness prop=C31
//sv:bound any subset of the callbacks absent; one element then completion, an error or a cancellation
func FluxBare() {
	s := &fluxSource{ps: &fluxProbe{}}
	s.f = flux.Create(func(sink flux.Sink[uint64]) { s.sink = sink })
	sub := s.ps.subscribe()
	a, b, c, d := sv.Bool("a"), sv.Bool("b"), sv.Bool("c"), sv.Bool("d")
	if !a {
		sub.OnNext = nil
	}
	if !b {
		sub.OnComplete = nil
	}
	if !c {
		sub.OnError = nil
	}
	if !d {
		sub.Finally = nil
	}
	sub.OnRequest = nil
	sub.NoRequest = sv.Bool("norequest")
	l := &listener{}
	s.f.Notify(l.fn)
	s.f.Subscribe(sub)
	s.sink.Next(1)
	end := sv.Choose("end", 3)
	switch end {
	case 0:
		s.sink.Complete()
	case 1:
		s.sink.Error(errA)
	case 2:
		s.f.Subscription().Cancel()
	}
	sv.Assert((len(s.ps.vals) == 1) == a, "element")
	sv.Assert((s.ps.completes == 1) == (b && end == 0), "complete")
	sv.Assert((s.ps.errs == 1) == (c && end == 1), "error")
	sv.Assert((s.ps.final == 1) == d, "final")
	sv.Assert(l.n == 1, "listener")
	sv.Reach("done")
}

// FluxConcurrent has a source goroutine emit and end while the main goroutine registers a listener, or
// subscribes to the processor, or cancels.
//
//sv:harness prop=C31 sched=1 preempt=2 dpreempt=3 time=60 dtime=400
//sv:bound a source goroutine emitting two elements and a completion into a created flux or a processor, concurrent with the subscription of the processor, a listener registration and possibly a cancellation; 2 preemptions (3 in the thorough tier); data races are reported
func FluxConcurrent() {
	sv.Races()
	var f flux.Flux[uint64]
	var sink flux.Sink[uint64]
	processor := sv.Bool("processor")
	cancel := sv.Bool("cancel")
	var vals []uint64
	var signals []rx.SignalType
	sub := flux.Subscribe[uint64]{
		OnNext:     func(v uint64) { vals = append(vals, v) },
		OnComplete: func() { vals = append(vals, 100) },
		NoRequest:  true,
	}
	ended := make(chan rx.SignalType, 3)
	sub.Finally = func(s rx.SignalType) { ended <- s }
	if processor {
		p := flux.NewProcessor[uint64]()
		f, sink = p, p
	} else {
		f = flux.Create(func(s flux.Sink[uint64]) { sink = s })
		f.Subscribe(sub)
	}
	done := make(chan bool, 1)
	go func() {
		sink.Next(1)
		sink.Next(2)
		sink.Complete()
		done <- true
	}()
	heard := make(chan rx.SignalType, 3)
	f.Notify(func(s rx.SignalType) { heard <- s })
	if processor {
		f.Subscribe(sub)
	}
	if cancel {
		f.Subscription().Cancel()
	}
	<-done
	signals = append(signals, <-ended, <-heard)
	sv.Quiesce()
	sv.Assert(len(ended) == 0 && len(heard) == 0, "twice")
	sv.Assert(signals[0] == signals[1], "signals-differ")
	if !cancel {
		sv.Assert(len(vals) == 3, "elements")
		sv.Assert(signals[0] == rx.SignalComplete, "signal")
	}
	for i, v := range vals {
		want := uint64(i + 1)
		if i == 2 {
			want = 100
		}
		sv.Assert(v == want, "order")
	}
	sv.Assert((len(vals) == 3) == (signals[0] == rx.SignalComplete), "complete-signal")
	sv.Reach("done")
}
