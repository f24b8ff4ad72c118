package rx

import (
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// conv counts its applications and fails on elements of the given value.
type conv struct {
	calls int
	bad   uint64
}

func (c *conv) apply(v uint64) (uint64, error) {
	c.calls++
	if v == c.bad {
		return 0, errB
	}
	return v ^ 0xff00, nil
}

// MonoMap maps a mono.
//
//sv:harness prop=C33 time=60
//sv:bound sources: constant, constant error, created (signalling inside or after the subscription), processor (before or after); any value, any function result; one or two layers; listener before or after; the result may be fetched any number of times
func MonoMap() {
	var src mono.Mono[uint64]
	v, fails := sv.U64("v"), sv.Bool("fails")
	var later func()
	emit := func(s mono.Sink[uint64]) {
		if fails {
			s.Error(errA)
		} else {
			s.Success(v)
		}
	}
	switch sv.Choose("src", 5) {
	case 0:
		src = mono.Just(v)
		if fails {
			src = mono.Error[uint64](errA)
		}
	case 1:
		src = mono.Create(emit)
	case 2:
		src = mono.Create(func(s mono.Sink[uint64]) { later = func() { emit(s) } })
	case 3:
		p := mono.NewProcessor[uint64]()
		emit(p)
		src = p
	case 4:
		p := mono.NewProcessor[uint64]()
		later = func() { emit(p) }
		src = p
	}
	a, b := &conv{bad: sv.U64("bad")}, &conv{bad: sv.U64("bad2")}
	two := sv.Bool("two")
	m := mono.Map(src, a.apply)
	o := &outcome{done: true}
	wantA, wantB := 0, 0
	switch {
	case fails:
		o.err = errA
	case v == a.bad:
		wantA = 1
		o.err = errB
	default:
		wantA = 1
		o.v = v ^ 0xff00
	}
	if two {
		m = mono.Map(m, b.apply)
		if o.err == nil {
			wantB = 1
			if o.v == b.bad {
				o.err = errB
			} else {
				o.v = v
			}
		}
	}
	l := &listener{}
	p := &probe{}
	m.Async()
	m.Subscribe(p.subscribe())
	before := sv.Bool("before")
	if before {
		m.Notify(l.fn)
	}
	if later != nil {
		later()
	}
	if !before {
		m.Notify(l.fn)
	}
	p.check(o)
	l.check(o)
	sv.Assert(a.calls == wantA && b.calls == wantB, "applications")
	for i := 0; i < 2; i++ {
		got, err := m.Get()
		sv.Assert(err == o.err, "get-error")
		sv.Assert(err != nil || got == o.v, "get-value")
	}
	sv.Assert(a.calls == wantA && b.calls == wantB, "applications-get")
	sv.Reach("done")
}

// MonoMapAwaited lets a mapped mono finish by its source alone, as awaited computations do.
//
//sv:harness prop=C33
//sv:bound the source is subscribed directly; listeners on the mapped mono; any value and function result
func MonoMapAwaited() {
	p := mono.NewProcessor[uint64]()
	a := &conv{bad: sv.U64("bad")}
	m := mono.Map[uint64, uint64](p, a.apply)
	l := &listener{}
	before := sv.Bool("before")
	if before {
		m.Notify(l.fn)
	}
	p.Subscribe(mono.Subscribe[uint64]{})
	o := &outcome{done: true, v: sv.U64("v")}
	if sv.Bool("fails") {
		o.err = errA
		p.Error(errA)
	} else {
		p.Success(o.v)
		if o.v == a.bad {
			o.err = errB
		} else {
			o.v ^= 0xff00
		}
	}
	if !before {
		m.Notify(l.fn)
	}
	l.check(o)
	for i := 0; i < 2; i++ {
		got, err := m.Get()
		sv.Assert(err == o.err, "get-error")
		sv.Assert(err != nil || got == o.v, "get-value")
	}
	if o.err != errA {
		sv.Assert(a.calls == 1, "applications")
	}
	sv.Reach("done")
}

// FluxMap maps a stream with a history of signals.
//
//sv:harness prop=C33 time=60 dtime=400
//sv:bound 4 steps (5 in the thorough tier), each an element of any value, completion, an error, a listener registration or a cancellation, taken inside the source function or after it; the function fails on one value; one or two layers; source created or processor
func FluxMap() {
	n := steps(4, 5)
	a, b := &conv{bad: sv.U64("bad")}, &conv{bad: sv.U64("bad2")}
	sv.Assume(a.bad != b.bad^0xff00)
	two := sv.Bool("two")
	var sink flux.Sink[uint64]
	var f flux.Flux[uint64]
	o := &fluxOutcome{}
	wantA, wantB := 0, 0
	var ls []*listener
	step := func() {
		switch sv.Choose("op", 5) {
		case 0:
			v := sv.U64("v")
			if !o.done {
				wantA++
				switch {
				case v == a.bad:
					o.end(rx.SignalError, errB)
				case !two:
					o.vals = append(o.vals, v^0xff00)
				default:
					wantB++
					if v^0xff00 == b.bad {
						o.end(rx.SignalError, errB)
					} else {
						o.vals = append(o.vals, v)
					}
				}
			}
			sink.Next(v)
		case 1:
			o.end(rx.SignalComplete, nil)
			sink.Complete()
		case 2:
			o.end(rx.SignalError, errA)
			sink.Error(errA)
		case 3:
			l := &listener{}
			ls = append(ls, l)
			f.Notify(l.fn)
		case 4:
			o.end(rx.SignalCancel, nil)
			f.Subscription().Cancel()
		}
	}
	inside := 0
	processor := sv.Bool("processor")
	var src flux.Flux[uint64]
	if processor {
		p := flux.NewProcessor[uint64]()
		src, sink = p, p
	} else {
		if sv.Bool("inside") {
			inside = n
		}
		src = flux.Create(func(s flux.Sink[uint64]) {
			sink = s
			for i := 0; i < inside; i++ {
				step()
			}
		})
	}
	f = flux.Map(src, a.apply)
	if two {
		f = flux.Map(f, b.apply)
	}
	p := &fluxProbe{}
	f.Async()
	f.Subscribe(p.subscribe())
	for i := inside; i < n; i++ {
		step()
	}
	p.check(o)
	for _, l := range ls {
		if o.done {
			sv.Assert(l.n == 1, "listener")
			sv.Assert(l.signal == o.signal, "listener-signal")
		} else {
			sv.Assert(l.n == 0, "listener-early")
		}
	}
	sv.Assert(a.calls == wantA, "applications")
	sv.Assert(b.calls == wantB, "applications2")
	sv.Reach("done")
}

// FluxMapError maps a constant error, and maps with missing callbacks.
//
//sv:harness prop=C33
//sv:bound a constant-error source; a source whose element is rejected while any subset of the callbacks is absent
func FluxMapError() {
	c := &conv{bad: 5}
	p := &fluxProbe{}
	flux.Map(flux.Error[uint64](errA), c.apply).Subscribe(p.subscribe())
	o := &fluxOutcome{}
	o.end(rx.SignalError, errA)
	p.check(o)
	sv.Assert(c.calls == 0, "applications")

	q := &fluxProbe{}
	sub := q.subscribe()
	if sv.Bool("a") {
		sub.OnError = nil
	}
	if sv.Bool("b") {
		sub.Finally = nil
	}
	if sv.Bool("c") {
		sub.OnNext = nil
	}
	if sv.Bool("d") {
		sub.OnComplete = nil
	}
	var sink flux.Sink[uint64]
	flux.Map(flux.Create(func(s flux.Sink[uint64]) { sink = s }), c.apply).Subscribe(sub)
	sink.Next(4)
	sink.Next(5)
	sink.Next(6)
	sink.Complete()
	sv.Assert(q.completes == 0, "complete")
	sv.Assert(sub.OnNext == nil || len(q.vals) == 1, "elements")
	sv.Assert(sub.OnError == nil || q.errs == 1, "error")
	sv.Assert(sub.Finally == nil || q.final == 1 && q.signal == rx.SignalError, "final")
	sv.Reach("done")
}

// lazyMono starts when it is subscribed or awaited, as calls to the other side do.
type lazyMono struct {
	mono.Mono[uint64]
	starts *int
}

func (l *lazyMono) Async() {
	*l.starts++
	l.Mono.Subscribe(mono.Subscribe[uint64]{})
}

type lazyFlux struct {
	flux.Flux[uint64]
	starts *int
}

func (l *lazyFlux) Async() {
	*l.starts++
	l.Flux.Subscribe(flux.Subscribe[uint64]{})
}

// MapStarts starts mapped computations without subscribing to them.
//
//sv:harness prop=C33
//sv:bound a mono or a flux that starts when awaited, below one or two mappings; any value and function result; listener before or after the start
func MapStarts() {
	starts := 0
	v := sv.U64("v")
	a := &conv{bad: sv.U64("bad")}
	two := sv.Bool("two")
	before := sv.Bool("before")
	l := &listener{}
	o := &outcome{done: true, v: v ^ 0xff00}
	if sv.Bool("flux") {
		src := flux.Create(func(s flux.Sink[uint64]) {
			s.Next(v)
			s.Complete()
		})
		f := flux.Map[uint64, uint64](&lazyFlux{src, &starts}, a.apply)
		if two {
			f = flux.Map(f, a.apply)
		}
		if before {
			f.Notify(l.fn)
		}
		f.Async()
		if !before {
			f.Notify(l.fn)
		}
		sv.Assert(starts == 1, "flux-started")
		l.check(o)
		sv.Reach("flux")
		return
	}
	src := mono.Create(func(s mono.Sink[uint64]) { s.Success(v) })
	m := mono.Map[uint64, uint64](&lazyMono{src, &starts}, a.apply)
	if v == a.bad {
		o.err = errB
	}
	if two {
		m = mono.Map(m, func(v uint64) (uint64, error) { return v ^ 0xff00, nil })
		o.v = v
	}
	if before {
		m.Notify(l.fn)
	}
	m.Async()
	if !before {
		m.Notify(l.fn)
	}
	sv.Assert(starts == 1, "started")
	l.check(o)
	got, err := m.Get()
	sv.Assert(err == o.err && (err != nil || got == o.v), "get")
	sv.Assert(a.calls == 1, "applications")
	sv.Reach("mono")
}

// FluxMapAgain subscribes to a mapped stream twice.
//
//sv:harness prop=C33
//sv:bound two subscriptions one after the other, each with one element that may fail to convert, then completion or an error; listeners before the second subscription ends and after it
func FluxMapAgain() {
	var sink flux.Sink[uint64]
	c := &conv{bad: 5}
	src := flux.Create(func(s flux.Sink[uint64]) { sink = s })
	f := flux.Map(src, c.apply)
	for i := 0; i < 2; i++ {
		p := &fluxProbe{}
		o := &fluxOutcome{}
		sub := p.subscribe()
		sub.NoRequest = true
		f.Subscribe(sub)
		early := &listener{}
		if i == 1 {
			f.Notify(early.fn)
		}
		v := sv.U64("v")
		sink.Next(v)
		if v == 5 {
			o.end(rx.SignalError, errB)
		} else {
			o.vals = append(o.vals, v^0xff00)
		}
		if sv.Bool("fails") {
			o.end(rx.SignalError, errA)
			sink.Error(errA)
		} else {
			o.end(rx.SignalComplete, nil)
			sink.Complete()
		}
		p.check(o)
		late := &listener{}
		f.Notify(late.fn)
		sv.Assert(late.n == 1 && late.signal == o.signal, "listener")
		if i == 1 {
			sv.Assert(early.n == 1 && early.signal == o.signal, "early-listener")
		}
	}
	sv.Reach("done")
}

// Slice subscribes to a list with a history of requests.
//
//sv:harness prop=C32 sched=1 preempt=0 dpreempt=1 time=60 dtime=400
//sv:bound lists of 0 to 3 elements (4 in the thorough tier); 3 requests (4) of any non-negative size, the first through the subscriber's request callback, further ones from there when asked again, or from outside; or the default request; possibly a cancellation; no preemption (1)
func Slice() {
	n := sv.Choose("n", steps(4, 5))
	var vals []uint64
	for i := 0; i < n; i++ {
		vals = append(vals, sv.U64("v"))
	}
	p := &fluxProbe{}
	sub := p.subscribe()
	total, left, first := 0, steps(3, 4), true
	ask := func(s rx.Subscription) {
		if left == 0 {
			return
		}
		left--
		k := sv.IntRange("k", 0, 6)
		total += k
		first = false
		s.Request(k)
	}
	limit := func() int {
		if total < n {
			return total
		}
		return n
	}
	next := sub.OnNext
	sub.OnNext = func(v uint64) {
		next(v)
		sv.Assert(len(p.vals) <= total, "more-than-requested")
		sv.Assert(len(p.vals) <= n && v == vals[len(p.vals)-1], "order")
	}
	switch sv.Choose("mode", 3) {
	case 0:
		sub.OnRequest = ask
	case 1:
		sub.OnRequest = nil
		total, first = rx.RequestMax, false
	case 2:
		sub.NoRequest = true
	}
	src := vals
	f := flux.FromSlice(src)
	if sv.Bool("response") {
		f = flux.Create(func(sink flux.Sink[uint64]) {
			sink.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(sink, src)})
		})
	}
	f.Subscribe(sub)
	sv.Quiesce()
	cancelled := false
	check := func() {
		sv.Quiesce()
		if cancelled {
			sv.Assert(p.completes == 0, "complete-after-cancel")
			return
		}
		sv.Assert(len(p.vals) == limit(), "withheld")
		done := 0
		if len(p.vals) == n && !first {
			done = 1
		}
		sv.Assert(p.completes == done, "complete")
		sv.Assert(p.errs == 0, "error")
		sv.Assert(p.final == done, "final")
	}
	check()
	for i := 0; i < 2; i++ {
		ask(f.Subscription())
		check()
	}
	if p.final == 0 && sv.Bool("cancel") {
		f.Subscription().Cancel()
		cancelled = true
		got := len(p.vals)
		ask(f.Subscription())
		check()
		sv.Assert(len(p.vals) == got, "element-after-cancel")
		sv.Reach("cancelled")
	}
	for i := range src {
		sv.Assert(src[i] == vals[i], "list-changed")
	}
	sv.Reach("done")
}

// SliceAgain subscribes to a list twice.
//
//sv:harness prop=C32 sched=1 preempt=0
//sv:bound lists of 0 to 3 elements, all requested by each subscriber
func SliceAgain() {
	n := sv.Choose("n", 4)
	var vals []uint64
	for i := 0; i < n; i++ {
		vals = append(vals, sv.U64("v"))
	}
	f := flux.FromSlice(vals)
	for i := 0; i < 2; i++ {
		p := &fluxProbe{}
		sub := p.subscribe()
		sub.OnRequest = nil
		f.Subscribe(sub)
		sv.Quiesce()
		o := &fluxOutcome{vals: vals}
		o.end(rx.SignalComplete, nil)
		p.check(o)
	}
	sv.Reach("done")
}

// rawSink records what a source emits.
type rawSink struct {
	vals      []uint64
	completes int
	onNext    func()
}

func (r *rawSink) Next(v uint64) {
	sv.Assert(r.completes == 0, "element-after-complete")
	r.vals = append(r.vals, v)
	if r.onNext != nil {
		r.onNext()
	}
}
func (r *rawSink) Complete()                    { r.completes++ }
func (r *rawSink) Error(error)                  { sv.Fail("error") }
func (r *rawSink) OnSubscribe(flux.OnSubscribe) {}

// SliceResponses drives the response helper directly, also from inside the sink.
//
//sv:harness prop=C32 time=60
//sv:bound lists of 0 to 4 elements (6 in the thorough tier); 3 requests (4) of any non-negative 31-bit size, a further one possibly made from inside the delivery of any element
func SliceResponses() {
	n := sv.Choose("n", steps(5, 7))
	var vals []uint64
	for i := 0; i < n; i++ {
		vals = append(vals, sv.U64("v"))
	}
	r := &rawSink{}
	req := flux.SliceResponse[uint64](r, vals)
	total := 0
	ask := func() {
		k := sv.IntRange("k", 0, rx.RequestMax)
		total += k
		req(k)
	}
	nest := sv.Choose("nest", n+1)
	r.onNext = func() {
		sv.Assert(len(r.vals) <= total, "more-than-requested")
		sv.Assert(len(r.vals) <= n && r.vals[len(r.vals)-1] == vals[len(r.vals)-1], "order")
		if len(r.vals) == nest {
			nest = 0
			ask()
		}
	}
	for i := 0; i < steps(3, 4); i++ {
		ask()
		want, c := n, 1
		if total < n {
			want, c = total, 0
		}
		sv.Assert(len(r.vals) == want, "elements")
		sv.Assert(r.completes == c, "complete")
	}
	sv.Reach("done")
}

// SliceConcurrent has two goroutines request elements.
//
//sv:harness prop=C32 sched=1 preempt=2 dpreempt=3 time=60 dtime=400
//sv:bound a list of 3 elements; two goroutines requesting 1 or 2 each; 2 preemptions (3 in the thorough tier); data races are reported
func SliceConcurrent() {
	sv.Races()
	vals := []uint64{1, 2, 3}
	p := &fluxProbe{}
	sub := p.subscribe()
	sub.NoRequest = true
	f := flux.FromSlice(vals)
	f.Subscribe(sub)
	a, b := 1+sv.Choose("a", 2), 1+sv.Choose("b", 2)
	done := make(chan bool, 1)
	go func() {
		f.Subscription().Request(a)
		done <- true
	}()
	f.Subscription().Request(b)
	<-done
	ended := make(chan bool, 1)
	f.Notify(func(rx.SignalType) { ended <- true })
	if a+b >= 3 {
		<-ended
		sv.Assert(len(p.vals) == 3 && p.completes == 1 && p.final == 1, "all")
		for i, v := range p.vals {
			sv.Assert(v == uint64(i+1), "order")
		}
		sv.Reach("all")
		return
	}
	sv.Quiesce()
	sv.Assert(len(ended) == 0, "early")
	sv.Reach("some")
}
