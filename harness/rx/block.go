package rx

import (
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
)

// MonoBlock blocks on a mono while another goroutine may signal it.
//
//sv:harness prop=C35 sched=1 preempt=2 dpreempt=3 time=60 dtime=400
//sv:bound constant, constant error, created (signalling inside the subscription or from another goroutine), processor (signalled before or by another goroutine) and already subscribed monos of any outcome, optionally mapped by a function that fails on any one value, blocked on once or twice; interleavings of the caller, the subscribing and the signalling goroutine with up to 2 preemptions (3 in the thorough tier) at synchronisation points; data races included
func MonoBlock() {
	sv.Races()
	v, fails := sv.U64("v"), sv.Bool("fails")
	emit := func(s mono.Sink[uint64]) {
		if fails {
			s.Error(errA)
		} else {
			s.Success(v)
		}
	}
	var src mono.Mono[uint64]
	kind := sv.Choose("src", 6)
	var p *mono.ProcessorImpl[uint64]
	switch kind {
	case 0:
		src = mono.Just(v)
		if fails {
			src = mono.Error[uint64](errA)
		}
	case 1:
		src = mono.Create(emit)
	case 2:
		src = mono.Create(func(s mono.Sink[uint64]) { go emit(s) })
	case 3:
		p = mono.NewProcessor[uint64]()
		emit(p)
		src = p
	default:
		p = mono.NewProcessor[uint64]()
		src = p
	}
	want, werr := v, error(nil)
	if fails {
		want, werr = 0, errA
	}
	if sv.Bool("map") {
		c := &conv{bad: sv.U64("bad")}
		src = mono.Map(src, c.apply)
		if !fails {
			want = v ^ 0xff00
			if v == c.bad {
				want, werr = 0, errB
			}
		}
	}
	if kind == 5 {
		src.Subscribe(mono.Subscribe[uint64]{})
	}
	if kind >= 4 {
		go emit(p)
	}
	if sv.Bool("async") {
		src.Async()
	}
	n := 1
	if sv.Bool("twice") {
		n = 2
	}
	for i := 0; i < n; i++ {
		got, err := src.Block()
		sv.Assert(err == werr, "error")
		if werr == nil {
			sv.Assert(got == want, "value")
			sv.Reach("value")
		} else {
			sv.Reach("error")
		}
	}
	sv.Assert(sv.Quiesce() == 0, "leak")
}

// FluxBlock blocks on a flux while another goroutine may signal it.
//
//sv:harness prop=C35 sched=1 preempt=1 dpreempt=2 time=60 dtime=400
//sv:bound constant error, slice, created (signalling inside the subscription or from another goroutine) and processor (signalled before or by another goroutine) fluxes of up to 2 elements (any values), completing or failing, optionally mapped by a function that fails on any one value; interleavings of the caller, the subscribing and the signalling goroutine with up to 1 preemption (2 in the thorough tier); data races included
func FluxBlock() {
	sv.Races()
	vals := []uint64{sv.U64("a"), sv.U64("b")}[:sv.Choose("n", 3)]
	fails := sv.Bool("fails")
	emit := func(s flux.Sink[uint64]) {
		for _, v := range vals {
			s.Next(v)
		}
		if fails {
			s.Error(errA)
		} else {
			s.Complete()
		}
	}
	var src flux.Flux[uint64]
	kind := sv.Choose("src", 6)
	var p flux.Processor[uint64]
	switch kind {
	case 0:
		sv.Assume(fails && len(vals) == 0)
		src = flux.Error[uint64](errA)
	case 1:
		sv.Assume(!fails)
		src = flux.FromSlice(vals)
	case 2:
		src = flux.Create(emit)
	case 3:
		src = flux.Create(func(s flux.Sink[uint64]) { go emit(s) })
	case 4:
		p = flux.NewProcessor[uint64]()
		emit(p)
		src = p
	case 5:
		p = flux.NewProcessor[uint64]()
		src = p
	}
	o := &fluxOutcome{}
	c := &conv{}
	mapped := sv.Bool("map")
	if mapped {
		c.bad = sv.U64("bad")
		src = flux.Map(src, c.apply)
	}
	for _, v := range vals {
		if mapped && !o.done {
			if v == c.bad {
				o.end(rx.SignalError, errB)
			}
			v ^= 0xff00
		}
		if !o.done {
			o.vals = append(o.vals, v)
		}
	}
	if fails {
		o.end(rx.SignalError, errA)
	} else {
		o.end(rx.SignalComplete, nil)
	}
	if kind == 5 {
		go emit(p)
	}
	ps := &fluxProbe{}
	sub := ps.subscribe()
	sub.OnRequest = nil
	bare := sv.Bool("bare")
	if bare {
		sub = flux.Subscribe[uint64]{}
	}
	err := src.Block(sub)
	sv.Assert(err == o.err, "blocked-error")
	if !bare {
		ps.check(o)
	}
	if o.err == nil {
		sv.Reach("value")
	} else {
		sv.Reach("error")
	}
	if !mapped && kind > 0 {
		// the outcome stays
		sv.Assert(src.Block(flux.Subscribe[uint64]{}) == o.err, "again")
	}
	sv.Assert(sv.Quiesce() == 0, "leak")
}

// Conversions converts between monos and fluxes.
//
//sv:harness prop=C36 sched=1 preempt=1 dpreempt=2 time=60 dtime=400
//sv:bound monos of any outcome, and fluxes of up to 2 elements (3 in the thorough tier; any values) that complete or fail, signalling inside or after the subscription; the conversion of an empty completed flux to a mono is left open
func Conversions() {
	vals := []uint64{sv.U64("a"), sv.U64("b"), sv.U64("c")}[:sv.Choose("n", steps(3, 4))]
	fails := sv.Bool("fails")
	later := sv.Bool("later")
	var fire func()
	run := func(f func()) {
		if later {
			fire = f
		} else {
			f()
		}
	}
	conv := sv.Choose("conv", 3)
	if conv == 2 {
		sv.Assume(len(vals) == 1)
		p := &fluxProbe{}
		m := mono.Create(func(s mono.Sink[uint64]) {
			run(func() {
				if fails {
					s.Error(errA)
				} else {
					s.Success(vals[0])
				}
			})
		})
		if !later && sv.Bool("const") {
			m = mono.Just(vals[0])
			if fails {
				m = mono.Error[uint64](errA)
			}
		}
		f := transform.MonoToFlux(m)
		sub := p.subscribe()
		sub.OnRequest = nil
		f.Subscribe(sub)
		l := &listener{}
		f.Notify(l.fn)
		if later {
			p.check(&fluxOutcome{})
			fire()
		}
		sv.Quiesce()
		o := &fluxOutcome{}
		if fails {
			o.end(rx.SignalError, errA)
		} else {
			o.vals = vals
			o.end(rx.SignalComplete, nil)
		}
		p.check(o)
		sv.Assert(l.n == 1 && l.signal == o.signal, "listener")
		sv.Reach("flux")
		return
	}
	f := flux.Create(func(s flux.Sink[uint64]) {
		run(func() {
			for _, v := range vals {
				s.Next(v)
			}
			if fails {
				s.Error(errA)
			} else {
				s.Complete()
			}
		})
	})
	if !later && !fails && sv.Bool("slice") {
		f = flux.FromSlice(vals)
	}
	if conv == 0 {
		o := &outcome{done: true}
		if fails {
			o.err = errA
		}
		n := 0
		var got error
		signal := rx.SignalType(0)
		m := transform.FluxToVoid(f)
		m.Subscribe(mono.Subscribe[struct{}]{
			OnSuccess: func(struct{}) { n++ },
			OnError:   func(err error) { n++; got = err },
			Finally:   func(s rx.SignalType) { n += 10; signal = s },
		})
		l := &listener{}
		m.Notify(l.fn)
		if later {
			sv.Assert(n == 0, "early")
			fire()
		}
		sv.Quiesce()
		sv.Assert(n == 11, "void")
		sv.Assert(got == o.err, "void-error")
		sv.Assert(signal == o.signal(), "void-signal")
		l.check(o)
		sv.Reach("void")
		return
	}
	o := &outcome{done: true}
	switch {
	case len(vals) > 0:
		o.v = vals[0]
	case fails:
		o.err = errA
	default:
		return
	}
	p := &probe{}
	m := transform.FluxToMono(f)
	m.Subscribe(p.subscribe())
	l := &listener{}
	m.Notify(l.fn)
	if later {
		p.check(&outcome{})
		fire()
	}
	sv.Quiesce()
	p.check(o)
	l.check(o)
	sv.Reach("mono")
}
