// Package rx states the properties of the reactive packages and the flow helper.
package rx

import (
	"errors"

	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/mono"
)

var errA, errB = errors.New("a"), errors.New("b")

// outcome is what a mono ends with.
type outcome struct {
	done bool
	v    uint64
	err  error
}

func (o *outcome) signal() rx.SignalType {
	if o.err != nil {
		return rx.SignalError
	}
	return rx.SignalComplete
}

// probe is a subscriber that checks the order of what it receives.
type probe struct {
	values, errs, finals int
	v                    uint64
	err                  error
	signal               rx.SignalType
}

func (p *probe) subscribe() mono.Subscribe[uint64] {
	return mono.Subscribe[uint64]{
		OnSuccess: func(v uint64) {
			sv.Assert(p.finals == 0, "success-after-final")
			p.values++
			p.v = v
		},
		OnError: func(err error) {
			sv.Assert(p.finals == 0, "error-after-final")
			p.errs++
			p.err = err
		},
		Finally: func(s rx.SignalType) {
			p.finals++
			p.signal = s
		},
	}
}

func (p *probe) check(o *outcome) {
	if !o.done {
		sv.Assert(p.values == 0 && p.errs == 0 && p.finals == 0, "early")
		return
	}
	if o.err != nil {
		sv.Assert(p.values == 0 && p.errs == 1, "error")
		sv.Assert(p.err == o.err, "error-value")
	} else {
		sv.Assert(p.values == 1 && p.errs == 0, "success")
		sv.Assert(p.v == o.v, "success-value")
	}
	sv.Assert(p.finals == 1, "final")
	sv.Assert(p.signal == o.signal(), "final-signal")
}

// listener counts completion notifications.
type listener struct {
	n      int
	signal rx.SignalType
}

func (l *listener) fn(s rx.SignalType) { l.n++; l.signal = s }

func (l *listener) check(o *outcome) {
	if !o.done {
		sv.Assert(l.n == 0, "listener-early")
		return
	}
	sv.Assert(l.n == 1, "listener")
	sv.Assert(l.signal == o.signal(), "listener-signal")
}

// monoSource drives a mono with a history of signals.
type monoSource struct {
	m    mono.Mono[uint64]
	sink mono.Sink[uint64]
	o    outcome
	ls   []*listener
	ps   *probe
}

func (s *monoSource) step() {
	switch sv.Choose("op", 4) {
	case 0:
		v := sv.U64("v")
		if !s.o.done {
			s.o = outcome{done: true, v: v}
		}
		s.sink.Success(v)
	case 1:
		e := errA
		if sv.Bool("e") {
			e = errB
		}
		if !s.o.done {
			s.o = outcome{done: true, err: e}
		}
		s.sink.Error(e)
	case 2:
		l := &listener{}
		s.ls = append(s.ls, l)
		s.m.Notify(l.fn)
	case 3:
	}
}

func (s *monoSource) check() {
	s.ps.check(&s.o)
	for _, l := range s.ls {
		l.check(&s.o)
	}
	if s.o.done {
		v, err := s.m.Get()
		sv.Assert(err == s.o.err, "get-error")
		sv.Assert(err != nil || v == s.o.v, "get-value")
		sv.Reach("ended")
	}
	sv.Reach("done")
}

func steps(quick, deep int) int {
	if sv.Deep() {
		return deep
	}
	return quick
}

// MonoSignals lets the source signal during or after the subscription.
//
//sv:harness prop=C30 time=60 dtime=300
//sv:bound 4 steps (6 in the thorough tier), each a success with any value, an error, a listener registration or nothing, taken inside the source function, after it, or split between the two at any point; listeners may also register before the subscription
func MonoSignals() {
	s := &monoSource{ps: &probe{}}
	n := steps(4, 6)
	inside := sv.Choose("inside", n+1)
	s.m = mono.Create(func(sink mono.Sink[uint64]) {
		s.sink = sink
		for i := 0; i < inside; i++ {
			s.step()
		}
	})
	if sv.Bool("before") {
		l := &listener{}
		s.ls = append(s.ls, l)
		s.m.Notify(l.fn)
	}
	s.m.Async()
	ret := s.m.Subscribe(s.ps.subscribe())
	sv.Assert(ret == s.m, "chain")
	for i := inside; i < n; i++ {
		s.step()
	}
	s.check()
}

// MonoProcessor signals a processor before and after its subscription.
//
//sv:harness prop=C30 time=60 dtime=300
//sv:bound 4 steps (6 in the thorough tier) with the subscription at any point between them
func MonoProcessor() {
	p := mono.NewProcessor[uint64]()
	s := &monoSource{m: p, sink: p, ps: &probe{}}
	n := steps(4, 6)
	at := sv.Choose("at", n+1)
	for i := 0; i < n; i++ {
		if i == at {
			p.Subscribe(s.ps.subscribe())
		}
		s.step()
	}
	if at == n {
		p.Subscribe(s.ps.subscribe())
	}
	s.check()
}

// MonoNested registers listeners and signals from inside the callbacks.
//
//sv:harness prop=C30
//sv:bound a listener registration, and a further success or error, inside any callback of the subscriber or a listener
func MonoNested() {
	var sink mono.Sink[uint64]
	m := mono.Create(func(s mono.Sink[uint64]) { sink = s })
	p := &probe{}
	o := &outcome{done: true, v: sv.U64("v")}
	if sv.Bool("fails") {
		o.err = errA
	}
	where := sv.Choose("where", 4)
	again := sv.Choose("again", 3)
	inner, outer := &listener{}, &listener{}
	nest := func(at int) {
		if at != where {
			return
		}
		m.Notify(inner.fn)
		switch again {
		case 1:
			sink.Success(7)
		case 2:
			sink.Error(errB)
		}
	}
	sub := p.subscribe()
	m.Notify(func(s rx.SignalType) {
		outer.fn(s)
		nest(3)
	})
	ok, fail, fin := sub.OnSuccess, sub.OnError, sub.Finally
	sub.OnSuccess = func(v uint64) { ok(v); nest(0) }
	sub.OnError = func(err error) { fail(err); nest(1) }
	sub.Finally = func(s rx.SignalType) { fin(s); nest(2) }
	m.Subscribe(sub)
	if o.err != nil {
		sink.Error(o.err)
	} else {
		sink.Success(o.v)
	}
	p.check(o)
	outer.check(o)
	if where == 0 && o.err != nil || where == 1 && o.err == nil {
		sv.Assert(inner.n == 0, "listener-unregistered")
	} else {
		inner.check(o)
		sv.Reach("nested")
	}
	sv.Reach("done")
}

// MonoConstant checks constant monos.
//
//sv:harness prop=C30
//sv:bound every constant value; listeners before and after; each callback present or absent
func MonoConstant() {
	o := &outcome{done: true}
	var m mono.Mono[uint64]
	if sv.Bool("fails") {
		o.err = errA
		m = mono.Error[uint64](errA)
	} else {
		o.v = sv.U64("v")
		m = mono.Just(o.v)
	}
	l := &listener{}
	before := sv.Bool("before")
	m.Async()
	if before {
		m.Notify(l.fn)
	}
	p := &probe{}
	m.Subscribe(p.subscribe())
	if !before {
		m.Notify(l.fn)
	}
	p.check(o)
	l.check(o)
	m.Subscribe(mono.Subscribe[uint64]{})
	v, err := m.Get()
	sv.Assert(err == o.err && v == o.v, "get")
	l.check(o)
	sv.Reach("done")
}

// MonoBare subscribes without callbacks.
//
//sv:harness prop=C30
//sv:bound any subset of the callbacks absent, success or error
func MonoBare() {
	var sink mono.Sink[uint64]
	m := mono.Create(func(s mono.Sink[uint64]) { sink = s })
	o := &outcome{done: true, v: sv.U64("v")}
	if sv.Bool("fails") {
		o.err = errA
	}
	p := &probe{}
	sub := p.subscribe()
	a, b, c := sv.Bool("a"), sv.Bool("b"), sv.Bool("c")
	if !a {
		sub.OnSuccess = nil
	}
	if !b {
		sub.OnError = nil
	}
	if !c {
		sub.Finally = nil
	}
	l := &listener{}
	m.Notify(l.fn)
	m.Subscribe(sub)
	if o.err != nil {
		sink.Error(o.err)
		sv.Assert((p.errs == 1) == b, "error")
	} else {
		sink.Success(o.v)
		sv.Assert((p.values == 1) == a, "success")
	}
	sv.Assert((p.finals == 1) == c, "final")
	l.check(o)
	sv.Reach("done")
}

// MonoConcurrent has two goroutines signal while listeners are registered.
//
//sv:harness prop=C30 sched=1 preempt=2 dpreempt=3 time=60 dtime=400
//sv:bound a success and an error signalled by two goroutines, of a created mono or a processor whose subscription is concurrent, while the main goroutine registers a listener; 2 preemptions (3 in the thorough tier); data races are reported
func MonoConcurrent() {
	sv.Races()
	var m mono.Mono[uint64]
	var sink mono.Sink[uint64]
	processor := sv.Bool("processor")
	p := &probe{}
	if processor {
		q := mono.NewProcessor[uint64]()
		m, sink = q, q
	} else {
		m = mono.Create(func(s mono.Sink[uint64]) { sink = s })
		m.Subscribe(p.subscribe())
	}
	done := make(chan bool, 2)
	go func() {
		sink.Success(7)
		done <- true
	}()
	if sv.Bool("two") {
		go func() {
			sink.Error(errA)
			done <- true
		}()
	} else {
		done <- true
	}
	l := &listener{}
	m.Notify(l.fn)
	if processor {
		m.Subscribe(p.subscribe())
	}
	<-done
	<-done
	sv.Assert(p.values+p.errs == 1, "outcomes")
	o := &outcome{done: true, v: 7, err: p.err}
	p.check(o)
	l.check(o)
	v, err := m.Get()
	sv.Assert(err == o.err && (err != nil || v == 7), "get")
	sv.Reach("done")
}
