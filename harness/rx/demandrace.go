package rx

import (
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// DemandAtOnce requests while the source gets ready and while another goroutine requests.
//
//sv:harness prop=C37 time=60 dtime=400
//sv:bound two goroutines requesting 1 and 2 elements, the source getting ready on a third; every schedule with up to 2 preemptions (3 in the thorough tier)
func DemandAtOnce() {
	sv.Races()
	asked := make(chan int, 8)
	var sink flux.Sink[uint64]
	f := flux.Create(func(s flux.Sink[uint64]) { sink = s })
	f.Subscribe(flux.Subscribe[uint64]{NoRequest: true})
	go f.Subscription().Request(1)
	go sink.OnSubscribe(flux.OnSubscribe{Request: func(n int) { asked <- n }, Cancel: func() {}})
	f.Subscription().Request(2)
	sv.Quiesce()
	n := 0
	for len(asked) > 0 {
		n += <-asked
	}
	sv.Assert(n == 3, "asked")
	sv.Reach("done")
}

// DemandCancel cancels while requests are made.
//
//sv:harness prop=C37 time=60 dtime=400
//sv:bound a request, a cancellation and a second cancellation or completion at once; every schedule with up to 2 preemptions (3 in the thorough tier)
func DemandCancel() {
	sv.Races()
	asked, cancels := make(chan int, 8), make(chan int, 8)
	var sink flux.Sink[uint64]
	final := make(chan rx.SignalType, 8)
	f := flux.Create(func(s flux.Sink[uint64]) {
		sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) { asked <- n }, Cancel: func() { cancels <- 1 }})
	})
	f.Subscribe(flux.Subscribe[uint64]{NoRequest: true, Finally: func(s rx.SignalType) { final <- s }})
	go f.Subscription().Request(1)
	twice := sv.Bool("twice")
	if twice {
		go f.Subscription().Cancel()
	} else {
		go sink.Complete()
	}
	f.Subscription().Cancel()
	sv.Quiesce()
	sv.Assert(len(asked) <= 1, "asked")
	sv.Assert(len(final) == 1, "final")
	if twice || <-final == rx.SignalCancel {
		sv.Assert(len(cancels) == 1, "cancel")
		sv.Reach("cancelled")
	} else {
		sv.Assert(len(cancels) == 0, "cancelled")
		sv.Reach("completed")
	}
}
