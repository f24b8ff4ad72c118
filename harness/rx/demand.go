package rx

import (
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// demand follows how many elements were requested, delivered and asked of the source.
type demand struct {
	f       flux.Flux[uint64]
	sink    flux.Sink[uint64]
	hooked  bool
	ended   bool
	open    int // requested and not delivered
	want    int // to be asked of the source in total
	asked   int
	asks    int // times the subscriber is to be asked
	gotAsks int
	cancels int
	got     int
	sent    int
}

func (d *demand) hook() {
	if d.hooked {
		return
	}
	d.hooked = true
	if !d.ended {
		d.want += d.open
	}
	d.sink.OnSubscribe(flux.OnSubscribe{
		Request: func(n int) {
			sv.Assert(n > 0, "asked-for-nothing")
			sv.Assert(!d.ended, "asked-after-end")
			d.asked += n
		},
		Cancel: func() { d.cancels++ },
	})
}

func (d *demand) request(s rx.Subscription, n int) {
	if !d.ended {
		d.open += n
		if d.hooked {
			d.want += n
		}
	}
	s.Request(n)
}

// Demand checks what a source is asked for.
//
//sv:harness prop=C37 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound 4 steps (5 in the thorough tier), each a request for 1 or 2, an element that was asked for, completion, an error, a cancellation or the source getting ready; the source ready before, during or after the subscription; a subscriber asking for 0 to 2 elements each time it is asked, one without a request callback and one that declines to request; plain, processor-backed and mapped streams
func Demand() {
	d := &demand{}
	ready := sv.Bool("ready")
	var src flux.Flux[uint64]
	if sv.Bool("processor") {
		p := flux.NewProcessor[uint64]()
		src, d.sink = p, p
		if ready {
			d.hook()
		}
	} else {
		src = flux.Create(func(sink flux.Sink[uint64]) {
			d.sink = sink
			if ready {
				d.hook()
			}
		})
	}
	d.f = src
	if sv.Bool("mapped") {
		d.f = flux.Map(src, func(v uint64) (uint64, error) { return v + 1, nil })
	}
	kind := sv.Choose("kind", 3)
	sub := flux.Subscribe[uint64]{OnNext: func(uint64) { d.got++ }}
	if kind != 1 {
		sub.OnRequest = func(s rx.Subscription) {
			sv.Assert(!d.ended, "asking-after-end")
			d.gotAsks++
			if n := sv.Choose("take", 3); n > 0 {
				d.request(s, n)
			}
		}
	}
	switch kind {
	case 0:
		d.asks = 1
	case 1:
		d.open = rx.RequestMax
	case 2:
		sub.NoRequest = true
	}
	d.f.Subscribe(sub)
	if kind == 1 && d.hooked {
		d.want = rx.RequestMax
	}
	d.settle()
	for i := steps(4, 5); i > 0; i-- {
		switch sv.Choose("op", 6) {
		case 0:
			d.request(d.f.Subscription(), 1+sv.Choose("n", 2))
		case 1:
			if d.open == 0 || !d.hooked {
				return
			}
			if !d.ended {
				d.open--
				d.sent++
				if d.open == 0 && kind == 0 {
					d.asks++
				}
			}
			d.sink.Next(7)
		case 2:
			d.ended = true
			d.sink.Complete()
		case 3:
			d.ended = true
			d.sink.Error(errA)
		case 4:
			if !d.ended && d.hooked {
				d.ended = true
				d.f.Subscription().Cancel()
				sv.Assert(d.cancels == 1, "cancel")
				d.cancels = 0
				sv.Reach("cancelled")
			} else {
				d.ended = true
				d.f.Subscription().Cancel()
			}
		case 5:
			if d.hooked {
				return
			}
			d.hook()
		}
		d.settle()
	}
	sv.Reach("done")
}

func (d *demand) settle() {
	sv.Quiesce()
	sv.Assert(d.asked == d.want, "asked")
	sv.Assert(d.gotAsks == d.asks, "asks")
	sv.Assert(d.got == d.sent, "delivered")
	sv.Assert(d.cancels == 0, "cancelled-again")
	if d.asked > 0 {
		sv.Reach("asked")
	}
}
