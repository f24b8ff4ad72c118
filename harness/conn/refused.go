package conn

import (
	"context"
	"errors"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// refuse sends payloads of which one is too large to be sent; large is how much.
func refuse(n *node, large int) {
	big := payload.New(make([]byte, large), nil)
	count := 1 + sv.Choose("count", 3)
	at := sv.Choose("at", 3)
	sv.Assume(at < count)
	vals := make([]payload.Payload, count)
	for i := range vals {
		vals[i] = payload.New([]byte{byte(i)}, nil)
	}
	vals[at] = big
	if n.limit == 0 && sv.Bool("text") {
		sv.Assume(count == 1)
		n.textRefused(sv.Bool("response"), string(make([]byte, large)))
		return
	}
	elements := func(fs []frames.Frame, id uint32) {
		sv.Assert(len(fs) == at+1, "elements")
		for i := 0; i < at; i++ {
			isPayload(fs[i], id, true, false, vals[i], "element")
		}
		isError(fs[at], id, "", "refused")
	}
	switch sv.Choose("what", 4) {
	case 0:
		sv.Assume(count == 1)
		n.export.rr(func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
			if sv.Bool("later") {
				p := mono.NewProcessor[payload.Payload]()
				go p.Success(big)
				return p
			}
			return mono.Just[payload.Payload](big)
		})
		id := n.peerID(1)
		n.deliver(request(rr, id, opMetadata(0), nil, 1))
		fs := n.take()
		sv.Assert(len(fs) == 1, "answer")
		isError(fs[0], id, "", "answer")
		sv.Reach("answer")
	case 1:
		n.responseRefused(vals, at, elements)
	case 2:
		n.callRefused(big)
	case 3:
		n.inputRefused(vals, at, elements)
	}
}

// textRefused fails with an error whose text is too large.
func (n *node) textRefused(response bool, text string) {
	fail := flux.Error[payload.Payload](errors.New(text))
	if response {
		n.export.rr(func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
			return mono.Error[payload.Payload](errors.New(text))
		})
		n.export.rs(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return fail })
		n.export.rc(func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			return fail
		})
		kind := sv.Choose("kind", 4)
		sv.Assume(kind != fnf)
		id := n.peerID(1)
		n.deliver(request(kind, id, opMetadata(0), nil, 1))
		fs := n.take()
		sv.Assert(len(fs) == 1, "text")
		isError(fs[0], id, "", "text")
		sv.Reach("text")
		return
	}
	failed := 0
	n.caller.RequestChannel(context.Background(), payload.New(nil, nil), fail).Subscribe(flux.Subscribe[payload.Payload]{
		OnError: func(error) { failed++ },
	})
	fs := n.take()
	sv.Assert(len(fs) == 2, "text-input")
	isError(fs[1], fs[0].GetStreamID(), "", "text-input")
	sv.Assert(failed == 1, "text-failed")
	sv.Reach("text-input")
}

// responseRefused answers a stream or channel.
func (n *node) responseRefused(vals []payload.Payload, at int, elements func([]frames.Frame, uint32)) {
	kind := rs
	if sv.Bool("channel") {
		kind = rc
	}
	stopped, ended := 0, 0
	var input flux.Flux[payload.Payload]
	eager := sv.Bool("eager")
	finish := sv.Choose("finish", 3)
	answer := func() flux.Flux[payload.Payload] {
		if !eager {
			return flux.FromSlice(vals)
		}
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { stopped++ }})
			for _, v := range vals {
				s.Next(v)
			}
			switch finish {
			case 1:
				s.Complete()
			case 2:
				s.Error(errA)
			}
		})
	}
	n.export.rs(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return answer() })
	n.export.rc(func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		input = in
		in.Subscribe(flux.Subscribe[payload.Payload]{Finally: func(rx.SignalType) { ended++ }, NoRequest: true})
		return answer()
	})
	id := n.peerID(1)
	asked := uint32(1 + sv.Choose("asked", 4))
	n.deliver(request(kind, id, opMetadata(0), nil, asked))
	fs := n.take()
	if !eager && asked <= uint32(at) {
		n.deliver(&frames.RequestN{StreamID: id, N: 4})
		fs = append(fs, n.take()...)
		sv.Reach("asked")
	}
	elements(fs, id)
	sv.Assert(kind == rs || (input != nil && ended == 1), "input-ended")
	sv.Assert(!eager || finish != 0 || stopped == 1, "stopped")
	// the stream is forgotten
	n.deliver(&frames.RequestN{StreamID: id, N: 4})
	n.deliver(&frames.Payload{StreamID: id, Next: true, Complete: true})
	sv.Assert(len(n.take()) == 0, "forgotten")
	n.alive()
	sv.Reach("response")
}

// callRefused makes a call whose request cannot be sent.
func (n *node) callRefused(big payload.Payload) {
	ctx := context.Background()
	ended, failed, subscribed := 0, 0, 0
	kind := sv.Choose("kind", 3)
	var f flux.Flux[payload.Payload]
	sub := flux.Subscribe[payload.Payload]{
		OnComplete: func() { ended++ },
		OnError:    func(error) { failed++ },
	}
	switch kind {
	case 0:
		n.caller.RequestResponse(ctx, big).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(payload.Payload) { ended++ },
			OnError:   func(error) { failed++ },
		})
	case 1:
		f = n.caller.RequestStream(ctx, big)
		f.Subscribe(sub)
	case 2:
		in := flux.Create(func(s flux.Sink[payload.Payload]) {
			subscribed++
			s.Next(payload.New(nil, nil))
		})
		f = n.caller.RequestChannel(ctx, big, in)
		f.Subscribe(sub)
	}
	sv.Assert(len(n.take()) == 0, "call-sent")
	sv.Assert(ended == 0 && failed == 1, "call-failed")
	sv.Assert(subscribed == 0, "call-input")
	if f != nil {
		f.Subscription().Request(2)
		sv.Assert(len(n.take()) == 0, "call-asks")
		f.Subscription().Cancel()
		sv.Assert(len(n.take()) == 0, "call-cancels")
	}
	sv.Assert(ended == 0 && failed == 1, "call-ended")
	n.alive()
	sv.Reach("call")
}

// inputRefused sends the elements of a channel.
func (n *node) inputRefused(vals []payload.Payload, at int, elements func([]frames.Frame, uint32)) {
	got, ended, failed, stopped := 0, 0, 0, 0
	var in flux.Flux[payload.Payload]
	var sink flux.Sink[payload.Payload]
	finish := sv.Choose("finish", 3)
	emit := func() {
		for _, v := range vals {
			sink.Next(v)
		}
		switch finish {
		case 1:
			sink.Complete()
		case 2:
			sink.Error(errA)
		}
	}
	how := sv.Choose("input", 3)
	switch how {
	case 0:
		in = flux.FromSlice(vals)
	default:
		in = flux.Create(func(s flux.Sink[payload.Payload]) {
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() { stopped++ }})
			sink = s
			if how == 1 {
				emit()
			}
		})
	}
	response := n.caller.RequestChannel(context.Background(), payload.New(nil, nil), in)
	response.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext:     func(payload.Payload) { got++ },
		OnComplete: func() { ended++ },
		OnError:    func(error) { failed++ },
	})
	fs := n.take()
	sv.Assert(len(fs) > 0, "request")
	r, ok := fs[0].(*frames.RequestPayload)
	sv.Assert(ok, "request")
	id, fs := r.StreamID, fs[1:]
	if how == 2 {
		sv.Assert(len(fs) == 0, "input-early")
		emit()
		fs = n.take()
	}
	if how == 0 {
		n.deliver(&frames.RequestN{StreamID: id, N: uint32(len(vals)) + 1})
		fs = append(fs, n.take()...)
	}
	elements(fs, id)
	sv.Assert(got == 0 && ended == 0 && failed == 1, "caller")
	sv.Assert(how == 0 || finish != 0 || stopped == 1, "input-stopped")
	n.deliver(&frames.Payload{StreamID: id, Next: true, Complete: true})
	n.deliver(&frames.RequestN{StreamID: id, N: 4})
	response.Subscription().Request(2)
	sv.Assert(len(n.take()) == 0, "forgotten")
	sv.Assert(got == 0 && ended == 0 && failed == 1, "late")
	n.alive()
	sv.Reach("input")
}
