package conn

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// nested serves a request by calling the peer. Frames arrive one after the
// other. Its operation waits for the peer or answers once the peer has.
func nested(n *node, waits bool) {
	ctx := context.Background()
	stream := sv.Bool("stream")
	type end func(payload.Payload, error)
	told := 0 // successful calls
	ask := func(then end) {
		p := payload.New([]byte{9}, opMetadata(0))
		var got payload.Payload
		if !stream {
			n.caller.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					told++
					then(p, nil)
				},
				OnError: func(err error) { then(nil, err) },
			})
			return
		}
		n.caller.RequestStream(ctx, p).Subscribe(flux.Subscribe[payload.Payload]{
			OnNext: func(p payload.Payload) { got = p },
			OnComplete: func() {
				told++
				then(got, nil)
			},
			OnError: func(err error) { then(nil, err) },
		})
	}
	serve := func(p payload.Payload, then end) {
		if p.Data()[0] != 1 {
			then(payload.New(p.Data(), []byte{}), nil)
			return
		}
		if !waits {
			ask(then)
			return
		}
		var got payload.Payload
		var err error
		done := make(chan struct{})
		ask(func(p payload.Payload, e error) {
			got, err = p, e
			close(done)
		})
		<-done
		then(got, err)
	}
	one := func(p payload.Payload) mono.Mono[payload.Payload] {
		m := mono.NewProcessor[payload.Payload]()
		serve(p, func(p payload.Payload, err error) {
			if err != nil {
				m.Error(err)
			} else {
				m.Success(p)
			}
		})
		return m
	}
	many := func(p payload.Payload) flux.Flux[payload.Payload] {
		f := flux.NewProcessor[payload.Payload]()
		serve(p, func(p payload.Payload, err error) {
			if err != nil {
				f.Error(err)
			} else {
				f.Next(p)
				f.Complete()
			}
		})
		return f
	}
	n.export.rr(func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] { return one(p) })
	n.export.fnf(func(_ context.Context, p payload.Payload) { serve(p, func(payload.Payload, error) {}) })
	n.export.rs(func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] { return many(p) })
	n.export.rc(func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		return many(p)
	})
	arriving := make(chan frames.Frame, 8)
	go func() {
		for f := range arriving {
			n.deliver(f)
		}
	}()
	defer close(arriving)
	kind := sv.Choose("kind", 4)
	id := n.peerID(1)
	arriving <- request(kind, id, opMetadata(0), []byte{1}, 1)
	fs := n.take()
	sv.Assert(len(fs) == 1, "calls")
	call, ok := fs[0].(*frames.RequestPayload)
	sv.Assert(ok, "calls-kind")
	want := types[rr]
	if stream {
		want = types[rs]
	}
	sv.Assert(call.FrameType == want, "calls-type")
	// another request does not wait for the first one
	if sv.Bool("other") {
		other := sv.Choose("other.kind", 4)
		p := payload.New([]byte{2}, []byte{})
		arriving <- request(other, n.peerID(2), opMetadata(0), []byte{2}, 1)
		answered(n, other, n.peerID(2), p, "other")
	}
	p := pay("answer")
	fails := sv.Bool("fails")
	if fails {
		arriving <- &frames.Error{StreamID: call.StreamID, Data: "e"}
	} else {
		arriving <- &frames.Payload{StreamID: call.StreamID, Data: p.Data(), Metadata: p.Metadata(), Next: true, Complete: true}
	}
	if fails {
		fs := n.take()
		if kind == fnf {
			sv.Assert(len(fs) == 0 && told == 0, "failed")
		} else {
			sv.Assert(len(fs) == 1, "fails-once")
			isError(fs[0], id, "e", "fails")
		}
		sv.Reach("failed")
		return
	}
	answered(n, kind, id, p, "answer")
	sv.Assert(told == 1, "served")
	sv.Reach("answered")
}

// answered checks the answer to a request.
func answered(n *node, kind int, id uint32, p payload.Payload, label string) {
	fs := n.take()
	switch kind {
	case rr:
		sv.Assert(len(fs) == 1, label+"-number")
		isPayload(fs[0], id, true, true, p, label)
	case fnf:
		sv.Assert(len(fs) == 0, label+"-number")
	default:
		var data []byte
		ends := 0
		for _, f := range fs {
			f, ok := f.(*frames.Payload)
			sv.Assert(ok && f.StreamID == id, label+"-frame")
			sv.Assert(ends == 0, label+"-after")
			if f.Next {
				data = append(data, f.Data...)
			}
			if f.Complete {
				ends++
			}
		}
		sv.Assert(ends == 1, label+"-end")
		sv.SameBytes(data, p.Data(), label+"-element")
	}
}
