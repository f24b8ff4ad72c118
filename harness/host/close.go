package conn

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// asked is a request the guest has made.
type asked struct {
	kind int
	id   uint32
	r    *reply
	left int // answers due
}

// ask makes a request of any kind, whose answer may come later.
func (h *hostNode) ask(k int, any bool) *asked {
	kinds := 6
	if !any {
		kinds = 1
	}
	a := &asked{kind: sv.Choose("kind", kinds), id: h.peerID(uint32(k + 1)), r: newReply(1)}
	a.r.plain = true
	md := opMetadata(byte(k))
	h.export.rr(func(context.Context, payload.Payload) mono.Mono[payload.Payload] { return a.r.mono() })
	h.export.fnf(func(context.Context, payload.Payload) {})
	h.export.rs(func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
		f, _ := a.r.flux()
		return f
	})
	h.export.rc(func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		f, _ := a.r.flux()
		return f
	})
	kind := a.kind
	switch a.kind {
	case 4:
		kind, md = sv.Choose("unknown", 4), opMetadata(7)
	case 5:
		kind, md = sv.Choose("malformed", 4), nil
	}
	h.deliver(request(kind, a.id, md, nil, 9))
	if a.kind != fnf {
		a.left = 1
	}
	return a
}

// pending tells whether the request is in progress.
func (a *asked) pending() bool { return a.r.fire != nil }

// end answers the request or has the guest cancel it.
func (h *hostNode) end(a *asked) {
	if !a.pending() {
		return
	}
	if (a.kind == rs || a.kind == rc) && sv.Bool("cancel") {
		h.deliver(&frames.Cancel{StreamID: a.id})
		a.left = 0
	} else {
		a.r.fire()
	}
	a.r.fire = nil
}

// answered checks the answers the guest has received.
func (h *hostNode) answered(as ...*asked) {
	for _, f := range h.take() {
		for _, a := range as {
			if f.GetStreamID() != a.id {
				continue
			}
			end := false
			switch f := f.(type) {
			case *frames.Error:
				end = true
			case *frames.Payload:
				end = f.Complete
			}
			if end {
				a.left--
			}
		}
	}
	for _, a := range as {
		sv.Assert(a.left == 0, "answered")
	}
}

// HostCloses closes an instance with requests in progress.
//
//sv:harness prop=C46 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound up to 2 requests of any kind (the second one a simple request in the quick tier), including unknown operations and malformed metadata, answered before or after closing by success or failure, or cancelled by the guest; then closed again, with a frame of any kind arriving and a call of any kind made afterwards
func HostCloses() {
	h := newHost(64)
	h.preempt = steps(-1, 0)
	h.run()
	var as []*asked
	for i := sv.Choose("requests", 3); i > 0; i-- {
		as = append(as, h.ask(len(as), steps(len(as), 0) == 0))
		sv.Quiesce()
	}
	for _, a := range as {
		if sv.Bool("before") {
			h.end(a)
		}
	}
	closed, failed := false, false
	go func() {
		failed = h.i.Close() != nil
		closed = true
	}()
	for i := 0; ; i++ {
		sv.Quiesce()
		busy := false
		for _, a := range as {
			busy = busy || a.pending()
		}
		if !busy {
			break
		}
		sv.Assert(!closed, "early")
		sv.Reach("waits")
		h.end(as[i])
	}
	sv.Assert(closed && !failed, "closed")
	h.answered(as...)
	sv.Assert(h.i.Close() == nil, "again")
	switch sv.Choose("after", 3) {
	case 0:
		h.deliver(h.frame(1))
	case 1:
		p := payload.New([]byte{1}, opMetadata(0))
		ends := 0
		sub := flux.Subscribe[payload.Payload]{OnComplete: func() { ends++ }, OnError: func(error) { ends++ }}
		switch sv.Choose("call", 4) {
		case 0:
			h.caller.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{OnError: sub.OnError})
		case 1:
			h.caller.FireAndForget(context.Background(), p)
			ends++
		case 2:
			h.caller.RequestStream(context.Background(), p).Subscribe(sub)
		case 3:
			h.caller.RequestChannel(context.Background(), p, flux.FromSlice([]payload.Payload{p, p})).Subscribe(sub)
		}
		sv.Quiesce()
		sv.Assert(ends == 1, "refused")
	}
	sv.Assert(sv.Quiesce() == 0, "blocked")
	sv.Reach("closed")
}

// HostClosesAtOnce closes an instance while a request arrives or is being answered.
//
//sv:harness prop=C46 sched=1 preempt=1 dpreempt=2 time=90 dtime=400
//sv:bound one request of any kind in progress that is answered or cancelled while the instance is being closed (a simple request also while it is closed twice), or another request arriving meanwhile; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points; data races included
func HostClosesAtOnce() {
	sv.Races()
	h := newHost(64).run()
	sv.Preempt(-1)
	a := h.ask(0, true)
	sv.Quiesce()
	arrives := !a.pending()
	sv.Assume(!arrives || a.kind == rs && !a.r.fails)
	twice := !arrives && a.kind == rr && !a.r.fails && sv.Bool("twice")
	sv.Preempt(steps(1, 2))
	ending, ended := make(chan struct{}), make(chan struct{})
	go func() {
		if arrives {
			// another one that does not take long
			a.r.quick = true
			h.deliver(request(rs, h.peerID(5), opMetadata(0), nil, 9))
		} else {
			close(ending)
			h.end(a)
		}
		close(ended)
	}()
	closing := make(chan struct{})
	if twice {
		go func() {
			sv.Assert(h.i.Close() == nil, "closed")
			close(closing)
		}()
	} else {
		close(closing)
	}
	sv.Assert(h.i.Close() == nil, "closed")
	if !arrives {
		select {
		case <-ending:
		default:
			sv.Fail("early")
		}
	}
	<-closing
	<-ended
	sv.Preempt(0)
	sv.Assert(sv.Quiesce() == 0, "blocked")
	if !arrives {
		h.answered(a)
		sv.Reach("answered")
	}
}

// HostFailsCalls closes an instance with calls to the guest that are not answered.
//
//sv:harness prop=C46 preempt=0 dpreempt=0 time=30 dtime=400
//sv:bound two calls of any kind, the first (both in the thorough tier) after up to 1 response of any kind, and a channel the guest opened whose response has ended
func HostFailsCalls() {
	h := newHost(64).run()
	ended, open := 0, 0
	if sv.Bool("input") {
		open = 1
		h.export.rc(func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			in.Subscribe(flux.Subscribe[payload.Payload]{OnComplete: func() { ended++ }, OnError: func(error) { ended++ }})
			return flux.FromSlice([]payload.Payload{})
		})
		h.deliver(request(rc, h.peerID(1), opMetadata(0), nil, 9))
		h.take()
		sv.Assert(ended == 0, "input")
	}
	var cs []*call
	for i := 0; i < 2; i++ {
		c := h.start(sv.Choose("kind", 4), "a")
		if (i == 0 || sv.Deep()) && sv.Bool("responds") {
			h.respond(c.id, c)
		}
		cs = append(cs, c)
	}
	sv.Assert(h.i.Close() == nil, "closed")
	sv.Assert(sv.Quiesce() == 0, "blocked")
	for _, c := range cs {
		if !c.ended && c.kind != fnf {
			n := len(c.want)
			sv.Assert(len(c.got) == n+1, "failed")
			sv.Assert(c.got[n].fail && c.got[n].end, "failed")
			c.got = c.got[:n]
			sv.Reach("failed")
			if c.kind == rc {
				sv.Assert(c.inCancel == 1, "input-cancelled")
			}
		}
		c.check()
	}
	sv.Assert(ended == open, "input-ended")
	sv.Assert(len(h.take()) == 0, "nothing-sent")
}

// HostFailsCallsAtOnce closes an instance while a call is being made or answered.
//
//sv:harness prop=C46 sched=1 preempt=1 dpreempt=2 time=60 dtime=400
//sv:bound one call, a simple request or a stream of any demand, made or answered while the instance is being closed; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points; data races included
func HostFailsCallsAtOnce() {
	sv.Races()
	h := newHost(64).run()
	sv.Preempt(-1)
	h.spawn = func(f func()) { f() }
	if sv.Bool("answered") {
		h.react = func(f frames.Frame) {
			h.deliver(&frames.Payload{StreamID: f.GetStreamID(), Next: true, Complete: true, Data: []byte{1}})
		}
	}
	kind := sv.Choose("kind", 2)
	sv.Preempt(steps(1, 2))
	done := make(chan struct{})
	go func() {
		sv.Assert(h.i.Close() == nil, "closed")
		close(done)
	}()
	next, end := 0, 0
	p := payload.New([]byte{1}, opMetadata(0))
	if kind == 0 {
		if _, err := h.caller.RequestResponse(context.Background(), p).Block(); err == nil {
			sv.Reach("answered")
		} else {
			sv.Reach("failed")
		}
	} else {
		over := make(chan struct{})
		h.caller.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(payload.Payload) { next++ },
			OnComplete: func() { end++ },
			OnError:    func(error) { end++ },
			Finally:    func(rx.SignalType) { close(over) },
		})
		<-over
		sv.Assert(end == 1, "ends")
	}
	<-done
	sv.Preempt(0)
	sv.Assert(sv.Quiesce() == 0, "blocked")
}
