package conn

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
)

// channel serves a channel or stream whose ends do anything in any order.
func channel(n *node, k int) {
	var in flux.Flux[payload.Payload]
	var sink flux.Sink[payload.Payload]
	var asked []int           // of the response
	stopped := 0              // times the response was cancelled
	var got []payload.Payload // from the input
	completed, failed := 0, ""
	response := func() flux.Flux[payload.Payload] {
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			s.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) { asked = append(asked, n) },
				Cancel:  func() { stopped++ },
			})
			sink = s
		})
	}
	n.export.rs(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return response() })
	n.export.rc(func(_ context.Context, _ payload.Payload, i flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		in = i
		return response()
	})
	kind := rc
	if sv.Bool("stream") {
		kind = rs
	}
	id := streamID("id")
	if n.theirs {
		sv.Assume((id&1 == 0) != n.server)
	}
	first := sv.U32("n")
	sv.Assume(first > 0 && first < 1<<31)
	n.deliver(request(kind, id, opMetadata(0), nil, first))
	sv.Assert(len(n.take()) == 0, "answered-early")
	sv.Assert((in != nil) == (kind == rc) && sink != nil, "invoked")
	want := []int{int(first)}
	subscribed := false
	subscribe := func() {
		subscribed = true
		in.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext: func(p payload.Payload) {
				sv.Assert(completed == 0 && failed == "", "input-after-end")
				got = append(got, p)
			},
			OnComplete: func() { completed++ },
			OnError: func(err error) {
				sv.Assert(failed == "", "input-fails-once")
				failed = err.Error()
			},
			NoRequest: true,
		})
	}
	if kind == rc && sv.Bool("subscribed") {
		subscribe()
	}
	var sent []payload.Payload // by the peer
	responding, receiving, over, cancelled := true, kind == rc, false, false
	ends, fails := 0, ""
	for ; k > 0; k-- {
		do := sv.Choose("do", 10)
		var fs []frames.Frame
		take := func(count int, label string) {
			fs = n.take()
			sv.Assert(len(fs) == count, label)
		}
		switch do {
		case 0, 1: // the peer sends an element or completes
			sv.Assume(kind == rc)
			p := pay("sent")
			f := &frames.Payload{StreamID: id, Data: p.Data(), Metadata: p.Metadata(), Next: true}
			if do == 1 {
				f.Complete = true
				f.Next = sv.Bool("last")
			}
			n.deliver(f)
			take(0, "answers-input")
			if receiving && f.Next {
				sent = append(sent, p)
			}
			if receiving && do == 1 {
				receiving = false
				ends = 1
			}
		case 2: // the peer fails
			n.deliver(&frames.Error{StreamID: id, Data: "f"})
			take(0, "answers-failure")
			if responding {
				cancelled = true
			}
			if receiving {
				fails = "f"
			}
			responding, receiving = false, false
		case 3: // the peer wants no more
			n.deliver(&frames.Cancel{StreamID: id})
			take(0, "answers-cancel")
			if responding {
				cancelled = true
			}
			over = over || receiving
			responding, receiving = false, false
		case 4: // the peer wants more
			c := sv.U32("n")
			sv.Assume(c > 0 && c < 1<<31)
			n.deliver(&frames.RequestN{StreamID: id, N: c})
			take(0, "answers-request")
			if responding {
				want = append(want, int(c))
			}
		case 5: // the operation sends
			sv.Assume(responding || cancelled)
			p := pay("element")
			sink.Next(p)
			if responding {
				take(1, "element-sent")
				isPayload(fs[0], id, true, false, p, "element")
			} else {
				take(0, "element-unwanted")
			}
		case 6, 7: // the operation ends
			sv.Assume(responding || cancelled)
			if do == 6 {
				sink.Complete()
			} else {
				sink.Error(errA)
			}
			if !responding {
				take(0, "end-unwanted")
				break
			}
			take(1, "end-sent")
			if do == 6 {
				isPayload(fs[0], id, false, true, nil, "completion")
			} else {
				isError(fs[0], id, "a", "failure")
				over = over || receiving
				receiving = false
			}
			responding = false
		case 8: // the operation wants input
			sv.Assume(subscribed && receiving)
			c := sv.IntRange("want", 1, 1<<31-1)
			in.Subscription().Request(c)
			take(1, "asks")
			r, ok := fs[0].(*frames.RequestN)
			sv.Assert(ok && r.StreamID == id && r.N == uint32(c), "asks-for")
		case 9: // the operation wants no more input
			sv.Assume(subscribed && receiving)
			in.Subscription().Cancel()
			take(1, "stops")
			c, ok := fs[0].(*frames.Cancel)
			sv.Assert(ok && c.StreamID == id, "stops-input")
			receiving = false
		}
	}
	if kind == rc && !subscribed {
		subscribe()
		sv.Assert(len(n.take()) == 0, "subscribed")
	}
	sv.Assert(len(got) == len(sent), "input-number")
	for i := range sent {
		samePayload(got[i], sent[i], "input")
	}
	if over {
		sv.Assert(completed <= 1, "input-completes-once")
	} else {
		sv.Assert(completed == ends, "input-completes")
		sv.SameString(failed, fails, "input-fails")
	}
	sv.Assert(len(asked) >= len(want), "requests")
	for i := range want {
		sv.Assert(asked[i] == want[i], "requested")
	}
	if cancelled {
		sv.Assert(stopped == 1, "cancelled")
	} else {
		sv.Assert(stopped == 0, "not-cancelled")
	}
	if !responding && !receiving {
		sv.Reach("over")
	}
}

// slow serves a stream or channel whose operation takes its time.
func slow(n *node) {
	gate := make(chan struct{})
	var sink flux.Sink[payload.Payload]
	asked, stopped := 0, 0
	response := func() flux.Flux[payload.Payload] {
		<-gate
		return flux.Create(func(s flux.Sink[payload.Payload]) {
			s.OnSubscribe(flux.OnSubscribe{Request: func(n int) { asked += n }, Cancel: func() { stopped++ }})
			sink = s
		})
	}
	var got []payload.Payload
	completed := 0
	n.export.rs(func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return response() })
	n.export.rc(func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		f := response()
		in.Subscribe(flux.Subscribe[payload.Payload]{
			OnNext:     func(p payload.Payload) { got = append(got, p) },
			OnComplete: func() { completed++ },
			NoRequest:  true,
		})
		return f
	})
	amount := func() uint32 {
		c := sv.U32("n")
		sv.Assume(c > 0 && c < 1<<20)
		return c
	}
	kind := rc
	if sv.Bool("stream") {
		kind = rs
	}
	id := n.peerID(1)
	first := amount()
	n.deliver(request(kind, id, opMetadata(0), nil, first))
	want := int(first)
	cancelled, ended := false, false
	var sent []payload.Payload
	for k := 2; k > 0; k-- {
		switch sv.Choose("do", 4) {
		case 0:
			c := amount()
			n.deliver(&frames.RequestN{StreamID: id, N: c})
			want += int(c)
		case 1:
			sv.Assume(!cancelled)
			n.deliver(&frames.Cancel{StreamID: id})
			cancelled = true
		case 2:
			sv.Assume(kind == rc && !cancelled && !ended)
			p := pay("sent")
			n.deliver(&frames.Payload{StreamID: id, Data: p.Data(), Metadata: p.Metadata(), Next: true})
			sent = append(sent, p)
		case 3:
			sv.Assume(kind == rc && !cancelled && !ended)
			n.deliver(&frames.Payload{StreamID: id, Complete: true})
			ended = true
		}
		sv.Assert(len(n.take()) == 0, "answered-early")
	}
	close(gate)
	sv.Assert(len(n.take()) == 0, "unasked")
	if cancelled {
		if sink != nil {
			sv.Assert(stopped == 1, "cancelled")
			sink.Next(payload.New([]byte{1}))
			sink.Complete()
		}
		sv.Assert(len(n.take()) == 0, "unwanted")
		sv.Reach("cancelled")
		return
	}
	sv.Assert(sink != nil && stopped == 0, "served")
	sv.Assert(asked == want, "demand")
	sv.Assert(len(got) == len(sent), "input-number")
	for i := range sent {
		samePayload(got[i], sent[i], "input")
	}
	sv.Assert((completed == 1) == ended && completed <= 1, "input-end")
	p := pay("element")
	sink.Next(p)
	sink.Complete()
	fs := n.take()
	sv.Assert(len(fs) == 2, "sent")
	isPayload(fs[0], id, true, false, p, "element")
	isPayload(fs[1], id, false, true, nil, "completion")
	sv.Reach("served")
}
