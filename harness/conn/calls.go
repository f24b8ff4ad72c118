package conn

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// signal is what a caller is told.
type signal struct {
	next, end, fail bool
	p               payload.Payload
	text            string
}

// call is one outgoing call.
type call struct {
	n       *node
	kind    int
	p       payload.Payload
	demand  int
	request *frames.RequestPayload
	id      uint32
	got     []signal
	want    []signal
	ended   bool
	sub     func() rx.Subscription

	// channel input
	in       flux.Sink[payload.Payload]
	inAsked  []int
	inCancel int
}

func (c *call) note(s signal) {
	c.n.mu.Lock()
	c.got = append(c.got, s)
	c.n.mu.Unlock()
}

// start makes the call and checks its request.
func (n *node) start(kind int, name string) *call {
	c := &call{n: n, kind: kind, p: pay(name), demand: 1}
	md := c.p.Metadata()
	if n.reached != nil {
		rest := append([]byte{0, 0, 0, 0}, md...)
		md = index(*n.reached, rest...)
		c.p = payload.New(c.p.Data(), index(sv.U32(name+".index"), rest...))
	}
	ctx := context.Background()
	sub := flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { c.note(signal{next: true, p: p}) },
		OnComplete: func() { c.note(signal{end: true}) },
		OnError:    func(err error) { c.note(signal{end: true, fail: true, text: err.Error()}) },
		NoRequest:  true,
	}
	ask := func(f flux.Flux[payload.Payload]) {
		f.Subscribe(sub)
		sv.Assert(len(n.take()) == 0, "request-early")
		c.sub = f.Subscription
		c.demand = sv.IntRange(name+".n", 1, 1<<31-1)
		f.Subscription().Request(c.demand)
	}
	switch kind {
	case rr:
		m := n.caller.RequestResponse(ctx, c.p)
		sv.Assert(len(n.take()) == 0, "request-early")
		m.Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) {
				c.note(signal{next: true, p: p})
				c.note(signal{end: true})
			},
			OnError: func(err error) { c.note(signal{end: true, fail: true, text: err.Error()}) },
		})
	case fnf:
		n.caller.FireAndForget(ctx, c.p)
	case rs:
		ask(n.caller.RequestStream(ctx, c.p))
	case rc:
		in := flux.Create(func(s flux.Sink[payload.Payload]) {
			c.in = s
			s.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) { c.inAsked = append(c.inAsked, n) },
				Cancel:  func() { c.inCancel++ },
			})
		})
		ask(n.caller.RequestChannel(ctx, c.p, in))
	}
	fs := n.take()
	sv.Assert(len(fs) == 1, "one-request")
	r, ok := fs[0].(*frames.RequestPayload)
	sv.Assert(ok, "request-frame")
	sv.Assert(r.FrameType == types[kind], "request-kind")
	sv.Assert(r.InitialN == uint32(c.demand), "request-demand")
	sv.Assert(!r.Follows, "request-whole")
	sv.SameBytes(r.Data, c.p.Data(), "request-data")
	sv.SameBytes(r.Metadata, md, "request-metadata")
	sv.Assert(r.StreamID != 0 && (r.StreamID&1 == 0) == n.server, "request-role")
	c.request, c.id = r, r.StreamID
	return c
}

// model records what a response means to the call.
func (c *call) model(p payload.Payload, next, complete, fail bool) {
	if c.ended || c.kind == fnf {
		return
	}
	if fail {
		c.want = append(c.want, signal{end: true, fail: true, text: "e"})
		c.ended = true
		return
	}
	if next {
		c.want = append(c.want, signal{next: true, p: p})
	}
	if complete || (next && c.kind == rr) {
		if !next && c.kind == rr {
			c.want = append(c.want, signal{next: true, p: payload.New(nil)})
		}
		c.want = append(c.want, signal{end: true})
		c.ended = true
	}
}

func (c *call) check() {
	sv.Quiesce()
	sv.Assert(len(c.got) == len(c.want), "signals")
	for i, w := range c.want {
		g := c.got[i]
		sv.Assert(g.next == w.next && g.end == w.end && g.fail == w.fail, "signal")
		if w.next {
			samePayload(g.p, w.p, "signal")
		}
		if w.fail {
			sv.SameString(g.text, w.text, "signal-text")
		}
	}
}

// respond delivers one response frame to the stream.
func (n *node) respond(id uint32, cs ...*call) {
	switch k := sv.Choose("response", 4); k {
	case 3:
		n.deliver(&frames.Error{StreamID: id, Data: "e"})
		for _, c := range cs {
			if c.id == id {
				c.model(nil, false, false, true)
			}
		}
	default:
		next, complete := k != 1, k != 0
		var p payload.Payload = payload.New(nil)
		if next {
			p = pay("v")
		}
		n.deliver(&frames.Payload{StreamID: id, Next: next, Complete: complete, Data: p.Data(), Metadata: p.Metadata()})
		for _, c := range cs {
			if c.id == id {
				c.model(p, next, complete, false)
			}
		}
	}
}

// route makes two calls and delivers responses.
func route(n *node, k int) {
	a := n.start(sv.Choose("a", 4), "a")
	b := n.start(sv.Choose("b", 4), "b")
	sv.Assert(a.id != b.id, "fresh")
	other := n.peerID(7)
	if sv.Bool("own") {
		// one of its own that was never used
		other = (b.id + 6) & (1<<31 - 1)
	}
	for i := 0; i < k; i++ {
		id := a.id
		switch sv.Choose("to", 3) {
		case 1:
			id = b.id
		case 2:
			id = other
		}
		n.respond(id, a, b)
	}
	a.check()
	b.check()
	sv.Assert(len(n.take()) == 0, "nothing-sent")
	c := n.start(rr, "c")
	sv.Assert(c.id != a.id && c.id != b.id, "fresh")
	if a.ended && b.ended {
		sv.Reach("ended")
	}
}

// control passes demand and cancellation on.
func control(n *node) {
	c := n.start(rs+sv.Choose("kind", 2), "a")
	cancelled := false
	for i := steps(3, 4); i > 0; i-- {
		k := sv.Choose("do", 4)
		switch k {
		case 0:
			m := sv.IntRange("n", 1, 1<<31-1)
			c.sub().Request(m)
			fs := n.take()
			if cancelled || c.ended {
				sv.Assert(len(fs) == 0, "demand-after-end")
				continue
			}
			sv.Assert(len(fs) == 1, "demand")
			r, ok := fs[0].(*frames.RequestN)
			sv.Assert(ok, "demand-kind")
			sv.Assert(r.StreamID == c.id, "demand-stream")
			sv.Assert(r.N == uint32(m), "demand-amount")
			sv.Reach("demand")
		case 1:
			c.sub().Cancel()
			fs := n.take()
			if cancelled || c.ended && c.kind == rs {
				sv.Assert(len(fs) == 0, "cancel-again")
				continue
			}
			if c.ended {
				// what remains of a channel may be cancelled too
				sv.Assert(len(fs) <= 1, "cancel-rest")
				return
			}
			cancelled = true
			sv.Assert(len(fs) == 1, "cancel")
			r, ok := fs[0].(*frames.Cancel)
			sv.Assert(ok, "cancel-kind")
			sv.Assert(r.StreamID == c.id, "cancel-stream")
			sv.Reach("cancel")
		default:
			before := c.ended
			if cancelled {
				// late responses are not delivered as elements
				c.ended = true
			}
			n.respond(c.id, c)
			if cancelled {
				c.ended = before
			}
			sv.Assert(len(n.take()) == 0, "nothing-sent")
		}
	}
	if cancelled {
		sv.Quiesce()
		for i, g := range c.got {
			if i < len(c.want) {
				continue
			}
			sv.Assert(!g.next, "element-after-cancel")
		}
	} else {
		c.check()
	}
}

// input sends the elements of a channel.
func input(n *node) {
	c := n.start(rc, "a")
	sv.Assert(len(c.inAsked) == 0, "input-early")
	inEnded, outEnded, stopped := false, false, false
	for i := steps(4, 5); i > 0; i-- {
		open := !inEnded && !stopped
		switch sv.Choose("do", 8) {
		case 6:
			// the peer fails
			stop := c.inCancel
			n.deliver(&frames.Error{StreamID: c.id, Data: "e"})
			sv.Assert(len(n.take()) == 0, "failure-answered")
			if outEnded && !open {
				continue // over already
			}
			if !outEnded {
				c.model(nil, false, false, true)
			}
			if open {
				sv.Assert(c.inCancel == stop+1, "input-failed")
			}
			c.check()
			return
		case 7:
			// the caller wants no more
			if outEnded {
				continue
			}
			c.sub().Cancel()
			fs := n.take()
			sv.Assert(len(fs) == 1, "cancel")
			r, ok := fs[0].(*frames.Cancel)
			sv.Assert(ok && r.StreamID == c.id, "cancel-kind")
			if open {
				sv.Assert(c.inCancel == 1, "input-unwanted")
			}
			c.check()
			return
		case 0:
			m := sv.U32("n")
			sv.Assume(m > 0 && m < 1<<31)
			asked := len(c.inAsked)
			n.deliver(&frames.RequestN{StreamID: c.id, N: m})
			sv.Assert(len(n.take()) == 0, "demand-answered")
			if open {
				sv.Assert(len(c.inAsked) == asked+1, "input-demand")
				sv.Assert(c.inAsked[asked] == int(m), "input-amount")
				sv.Reach("input-demand")
			}
		case 1:
			if !open {
				continue
			}
			p := pay("v")
			c.in.Next(p)
			fs := n.take()
			sv.Assert(len(fs) == 1, "input-element")
			isPayload(fs[0], c.id, true, false, p, "input-element")
		case 2:
			if !open {
				continue
			}
			inEnded = true
			c.in.Complete()
			fs := n.take()
			sv.Assert(len(fs) == 1, "input-end")
			isPayload(fs[0], c.id, false, true, nil, "input-end")
			sv.Reach("input-end")
		case 3:
			if !open {
				continue
			}
			c.in.Error(errA)
			fs := n.take()
			sv.Assert(len(fs) == 1, "input-failure")
			isError(fs[0], c.id, "a", "input-failure")
			return
		case 4:
			n.deliver(&frames.Cancel{StreamID: c.id})
			sv.Assert(len(n.take()) == 0, "cancel-answered")
			if open {
				sv.Assert(c.inCancel == 1, "input-cancelled")
				stopped = true
				sv.Reach("input-cancel")
			}
		case 5:
			if outEnded {
				continue
			}
			// the response is independent of the input
			outEnded = true
			n.deliver(&frames.Payload{StreamID: c.id, Complete: true})
			c.model(nil, false, true, false)
		}
	}
	c.check()
}
