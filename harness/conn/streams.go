package conn

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// serve registers one operation of every kind; input receives what channels are sent.
func serve(n *node, r *reply, in func(flux.Flux[payload.Payload])) {
	n.export.rr(func(context.Context, payload.Payload) mono.Mono[payload.Payload] { return r.mono() })
	n.export.fnf(func(context.Context, payload.Payload) {})
	n.export.rs(func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
		f, _ := r.flux()
		return f
	})
	n.export.rc(func(_ context.Context, _ payload.Payload, i flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		if in != nil {
			in(i)
		}
		f, _ := r.flux()
		return f
	})
}

// peerID is a stream id of the other side.
func (n *node) peerID(k uint32) uint32 {
	if n.server {
		return 2*k - 1
	}
	return 2 * k
}

// open opens one stream of any kind in either role and returns its id.
func (n *node) open() uint32 {
	p := payload.New([]byte{1}, opMetadata(0))
	kinds := 7
	if n.theirs {
		kinds = 4
	}
	switch k := sv.Choose("open", kinds); k {
	case 0, 1, 2, 3:
		id := n.peerID(1)
		n.deliver(request(k, id, opMetadata(0), []byte{1}, n.demand()))
		return id
	case 4:
		n.caller.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{})
	case 5:
		n.caller.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[payload.Payload]{})
	default:
		in := flux.FromSlice([]payload.Payload{p, p})
		n.caller.RequestChannel(context.Background(), p, in).Subscribe(flux.Subscribe[payload.Payload]{})
	}
	sv.Quiesce()
	n.mu.Lock()
	defer n.mu.Unlock()
	sv.Assert(len(n.sent) > 0, "request-sent")
	return n.sent[len(n.sent)-1].GetStreamID()
}

// demand is any amount, unless interleavings are of interest.
func (n *node) demand() uint32 {
	if n.hasty {
		return 2
	}
	return sv.U32("n")
}

// frame is any frame on the stream.
func (n *node) frame(id uint32) frames.Frame {
	switch sv.Choose("frame", 6) {
	case 0:
		return &frames.RequestN{StreamID: id, N: n.demand()}
	case 1:
		return &frames.Cancel{StreamID: id}
	case 2:
		return &frames.Payload{StreamID: id, Next: n.hasty || sv.Bool("next"), Complete: sv.Bool("complete"), Data: []byte{2}}
	case 3:
		return &frames.Error{StreamID: id, Data: "e"}
	case 4:
		k := rc
		if !n.hasty {
			k = sv.Choose("again", 4)
		}
		return request(k, id, opMetadata(0), nil, 1)
	default:
		return request(rs, id, []byte{0}, nil, 1)
	}
}

// alive checks that a fresh request is still answered.
func (n *node) alive() {
	id := n.peerID(9)
	n.take()
	sv.Preempt(0)
	n.deliver(request(rr, id, opMetadata(1), nil, 1))
	for _, f := range n.take() {
		if f.GetStreamID() == id {
			isError(f, id, "not_found", "alive")
			sv.Reach("alive")
			return
		}
	}
	sv.Fail("dead")
}

// survive receives frames that make no sense.
func survive(n *node, k int, wait bool) {
	if !wait {
		n.hasty = true
	}
	r := newReply(1)
	r.plain, r.never = true, n.hasty
	serve(n, r, func(in flux.Flux[payload.Payload]) {
		switch sv.Choose("input", 3) {
		case 1:
			in.Subscribe(flux.Subscribe[payload.Payload]{})
		case 2:
			in.Subscribe(flux.Subscribe[payload.Payload]{NoRequest: true})
			in.Subscription().Cancel()
		}
	})
	id := n.open()
	for i := 0; i < k; i++ {
		if wait {
			sv.Quiesce()
		}
		n.deliver(n.frame(id))
	}
	if wait && r.fire != nil {
		sv.Quiesce()
		r.fire()
	}
	sv.Assert(sv.Quiesce() == n.idle, "blocked")
	n.alive()
}

func steps(quick, deep int) int {
	if sv.Deep() {
		return deep
	}
	return quick
}

func unknown(n *node, steps int) {
	r := newReply(1)
	r.plain = true
	serve(n, r, nil)
	for i := 0; i < steps; i++ {
		switch sv.Choose("what", 3) {
		case 0:
			n.deliver(&frames.Setup{Data: sv.Bytes("table", 6)})
		case 1:
			n.deliver(n.frame(streamID("id")))
		case 2:
			// a request that may lack a part of its metadata
			k := sv.Choose("request", 4)
			n.deliver(request(k, n.peerID(uint32(i+1)), sv.Bytes("md", 8), nil, 1))
			sv.Reach("request")
		}
		sv.Quiesce()
	}
	n.alive()
}

// forget ends a stream in every way and then uses its id again.
func forget(n *node) {
	r := newReply(1)
	r.plain = true
	var input flux.Flux[payload.Payload]
	serve(n, r, func(in flux.Flux[payload.Payload]) {
		input = in
		in.Subscribe(flux.Subscribe[payload.Payload]{})
	})
	again := []payload.Payload{pay("again1"), pay("again2")}
	n.export.rs(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return flux.FromSlice(again) })
	n.export.rc(func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		return flux.FromSlice(again)
	})
	ctx := context.Background()
	p := payload.New([]byte{1}, opMetadata(0))
	id := n.peerID(1)
	var cancel func()
	deliver := func(f frames.Frame) {
		n.deliver(f)
		sv.Quiesce()
	}
	complete := func() { deliver(&frames.Payload{StreamID: id, Complete: true}) }
	last := func() {
		n.deliver(&frames.Payload{StreamID: id, Next: true, Complete: true, Data: []byte{7}})
		sv.Quiesce()
	}
	fail := func() { deliver(&frames.Error{StreamID: id, Data: "e"}) }
	abort := func() { deliver(&frames.Cancel{StreamID: id}) }
	answer := func() {
		sv.Quiesce()
		if r.fire != nil {
			r.fire()
		} else {
			// everything is asked for
			deliver(&frames.RequestN{StreamID: id, N: 9})
		}
		sv.Quiesce()
	}
	seen := 0 // signals delivered to the local caller after the end
	ended := false
	note := func() {
		if ended {
			seen++
		}
	}
	sub := flux.Subscribe[payload.Payload]{
		OnNext:     func(payload.Payload) { note() },
		OnComplete: note,
		OnError:    func(error) { note() },
	}
	own := func() uint32 {
		fs := n.take()
		sv.Assert(len(fs) == 1, "request-sent")
		return fs[0].GetStreamID()
	}
	switch kind := sv.Choose("kind", 7); kind {
	case rr, fnf:
		deliver(request(kind, id, opMetadata(0), nil, 1))
		if kind == rr {
			answer()
		}
	case rs:
		deliver(request(rs, id, opMetadata(0), nil, 1))
		switch sv.Choose("end", 4) {
		case 0:
			answer()
		case 1:
			abort()
		case 2:
			// while the request is running
			sv.Assume(r.later)
			abort()
			answer()
		case 3:
			n.deliver(request(rs, id, []byte{1}, nil, 1)) // malformed
			sv.Quiesce()
			abort()
		}
	case rc:
		deliver(request(rc, id, opMetadata(0), nil, 1))
		switch sv.Choose("end", 6) {
		case 0:
			complete()
			answer()
		case 1:
			answer()
			complete()
		case 2:
			fail()
		case 3:
			abort()
		case 4:
			sv.Assume(r.fails)
			answer()
		case 5:
			answer()
			input.Subscription().Cancel()
		}
	case 4:
		n.caller.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(payload.Payload) { note() },
			OnError:   func(error) { note() },
		})
		id = own()
		switch sv.Choose("end", 3) {
		case 0:
			last()
		case 1:
			complete()
		case 2:
			fail()
		}
	case 5:
		f := n.caller.RequestStream(ctx, p)
		f.Subscribe(sub)
		cancel = func() { f.Subscription().Cancel(); sv.Quiesce() }
		id = own()
		switch sv.Choose("end", 4) {
		case 0:
			last()
		case 1:
			complete()
		case 2:
			fail()
		case 3:
			cancel()
		}
	case 6:
		in := flux.NewProcessor[payload.Payload]()
		f := n.caller.RequestChannel(ctx, p, in)
		f.Subscribe(sub)
		id = own()
		switch sv.Choose("end", 7) {
		case 0:
			in.Complete()
			sv.Quiesce()
			last()
		case 1:
			complete()
			in.Complete()
			sv.Quiesce()
		case 2:
			fail()
		case 3:
			f.Subscription().Cancel()
			sv.Quiesce()
		case 4:
			in.Error(errA)
			sv.Quiesce()
		case 5:
			abort()
			last()
		case 6:
			complete()
			abort()
		}
	}
	ended = true
	n.take()
	// frames for the ended stream mean nothing
	for i := 0; i < 1; i++ {
		var f frames.Frame
		switch sv.Choose("late", 5) {
		case 0:
			f = &frames.RequestN{StreamID: id, N: 3}
		case 1:
			f = &frames.Cancel{StreamID: id}
		case 2:
			f = &frames.Payload{StreamID: id, Next: true, Complete: sv.Bool("complete"), Data: []byte{1}}
		case 3:
			f = &frames.Error{StreamID: id, Data: "late"}
		case 4:
			continue
		}
		deliver(f)
	}
	sv.Assert(seen == 0, "late-delivered")
	sv.Assert(len(n.take()) == 0, "late-answered")
	// the id is free again
	deliver(request(rs+sv.Choose("next", 2), id, opMetadata(1), nil, 1))
	fs := n.take()
	sv.Assert(len(fs) == 1, "again-first")
	isPayload(fs[0], id, true, false, again[0], "again-first")
	deliver(&frames.RequestN{StreamID: id, N: 1})
	fs = n.take()
	if len(fs) == 1 {
		deliver(&frames.RequestN{StreamID: id, N: 1})
		fs = append(fs, n.take()...)
	}
	sv.Assert(len(fs) == 2, "again-rest")
	isPayload(fs[0], id, true, false, again[1], "again-second")
	isPayload(fs[1], id, false, true, nil, "again-end")
	sv.Assert(seen == 0, "again-delivered")
	sv.Reach("again")
}
