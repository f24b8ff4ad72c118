package conn

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// atOnce makes two calls at the same time.
func atOnce(n *node) {
	v1, v2 := []byte{1}, []byte{2}
	a, b := sv.Choose("a", 4), sv.Choose("b", 2)
	// the first call may be a stream that is cancelled, and then has no end
	endless := func(r *frames.RequestPayload) bool { return a >= 2 && r.Data[0] == 1 }
	n.react = func(f frames.Frame) {
		r, ok := f.(*frames.RequestPayload)
		if !ok {
			return
		}
		id := r.StreamID
		n.spawn(func() {
			if r.FrameType == frames.FrameTypeRequestResponse {
				n.deliver(&frames.Payload{StreamID: id, Next: true, Complete: true, Data: r.Data})
				return
			}
			n.deliver(&frames.Payload{StreamID: id, Next: true, Data: v1})
			n.deliver(&frames.Payload{StreamID: id, Next: true, Complete: !endless(r), Data: v2})
		})
	}
	ctx := context.Background()
	one := func(name byte, kind int) {
		p := payload.New([]byte{name}, opMetadata(0))
		if kind == 0 {
			got, err := n.caller.RequestResponse(ctx, p).Block()
			sv.Assert(err == nil, "response")
			sv.SameBytes(got.Data(), p.Data(), "response")
			sv.Reach("response")
			return
		}
		var got []byte
		ends := 0
		done := make(chan struct{})
		f := n.caller.RequestStream(ctx, p)
		f.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext: func(p payload.Payload) {
				got = append(got, p.Data()[0])
				if kind == 3 {
					f.Subscription().Cancel()
				}
			},
			OnComplete: func() { ends++ },
			OnError:    func(error) { ends += 10 },
			Finally:    func(rx.SignalType) { close(done) },
			NoRequest:  true,
		})
		f.Subscription().Request(2)
		if kind == 2 {
			f.Subscription().Cancel()
		}
		<-done
		if kind >= 2 {
			sv.Assert(kind == 2 || len(got) == 1, "element-after-cancel")
			sv.Reach("cancelled")
			return
		}
		sv.Assert(len(got) == 2 && got[0] == 1 && got[1] == 2, "elements")
		sv.Assert(ends == 1, "completion")
		sv.Reach("elements")
	}
	done := make(chan struct{})
	go func() {
		one(1, a)
		close(done)
	}()
	one(2, b)
	<-done
	sv.Preempt(0)
	cancels := map[uint32]int{}
	requests := map[uint32]int{}
	cancelled := uint32(0)
	for _, f := range n.take() {
		id := f.GetStreamID()
		switch f := f.(type) {
		case *frames.RequestPayload:
			requests[id]++
			if endless(f) {
				cancelled = id
			}
		case *frames.Cancel:
			cancels[id]++
			sv.Assert(cancels[id] == 1 && requests[id] == 1, "cancel-once")
		}
	}
	for id := range requests {
		sv.Assert((cancels[id] == 1) == (id == cancelled), "cancel-sent")
	}
	// a stream cancelled early may not have been requested
	sv.Assert(len(requests) == 2 || a == 2 && len(requests) == 1, "distinct-streams")
	first := n.peerID(1) ^ 3
	for id, k := range requests {
		sv.Assert((id == first || id == first+2) && k == 1, "streams")
	}
}
