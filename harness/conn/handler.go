package conn

import (
	"context"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/operations"
)

func newHandler() *node {
	n := &node{export: globals{}, server: sv.Bool("server")}
	mode := handler.ClientMode
	if n.server {
		mode = handler.ServerMode
	}
	h := handler.New(context.Background(), mode)
	h.SetFrameSender(n.send)
	n.caller = h
	n.deliver = func(f frames.Frame) { _ = h.HandleFrame(f) }
	return n
}

// HandlerRequests answers one request.
//
//sv:harness prop=C40 time=60 dtime=400
//sv:bound one request of any kind and stream id with up to 10 bytes of metadata and 3 of data, any initial demand, 2 operations per kind answering with up to 2 elements (any payload) and success or failure, at once or later, with or without regard to demand
func HandlerRequests() { requests(newHandler()) }

// HandlerSurvives receives frames that make no sense, one after the other.
//
//sv:harness prop=C41 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound one open stream of any kind in either role (requests answered by one element, success or failure, at once or later; channel input unused, subscribed or cancelled), then 2 frames of any kind for it (3 in the thorough tier) with any demand (1 for repeated requests) and payload flags, including repeated and malformed requests
func HandlerSurvives() { survive(newHandler(), steps(2, 3), true) }

// HandlerSurvivesAtOnce receives frames while earlier ones are being processed.
//
//sv:harness prop=C41 sched=1 preempt=1 dpreempt=2 time=90 dtime=400
//sv:bound as HandlerSurvives for a client with demands of 1 and 2 (repeated requests are channels) and 1 frame (2 in the thorough tier) arriving while the requests are being processed, interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points; data races included
func HandlerSurvivesAtOnce() {
	sv.Races()
	n := newHandler()
	sv.Assume(!n.server)
	survive(n, steps(1, 2), false)
}

// HandlerNested serves a request by calling the peer and waiting for it.
//
//sv:harness prop=C40 preempt=0 dpreempt=1 time=60 dtime=400
//sv:bound a request of any kind whose operation makes a simple or stream call to the peer and waits for its response (1 byte of data and metadata, or a failure), with up to 1 other request of any kind answered meanwhile; frames arrive one after the other
func HandlerNested() { nested(newHandler(), true) }

// HandlerChannels serves a channel whose two directions do anything.
//
//sv:harness prop=C48 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound a stream or channel of any stream id, with its input subscribed at once or in the end, and up to 3 (4 in the thorough tier) of: an element, the last element, completion, failure, cancel or request of any number by the peer; an element, completion or failure of the response; a request of any number for input or its cancelling
func HandlerChannels() { channel(newHandler(), steps(3, 4)) }

// HandlerSlow serves a stream or channel whose operation takes its time.
//
//sv:harness prop=C48 preempt=0 dpreempt=1 time=60 dtime=400
//sv:bound a stream or channel for which 2 frames arrive before its operation answers: demand (of less than 2^20), cancellation, an element or completion of the input; then the response sends an element and completes
func HandlerSlow() { slow(newHandler()) }

// HandlerUnknown receives frames for streams that do not exist.
//
//sv:harness prop=C41 preempt=0 time=60
//sv:bound 2 frames of any kind (including set-up frames with up to 6 arbitrary bytes) on any stream id, or requests of any kind with up to 8 arbitrary bytes of metadata
func HandlerUnknown() { unknown(newHandler(), 2) }

// HandlerForgets ends a stream and uses its id again.
//
//sv:harness prop=C42 preempt=0 dpreempt=1 time=60 dtime=400
//sv:bound one stream of any kind in either role, ended in every way (completion, failure, cancellation, by either side, with halves of a channel ending in either order), then one late frame of any kind, then a stream or channel reusing the id with demand for its elements one by one
func HandlerForgets() { forget(newHandler()) }

// HandlerRoutes delivers responses to two calls.
//
//sv:harness prop=C43 preempt=0 dpreempt=0 time=60 dtime=600
//sv:bound two calls of any kinds with any payload and positive demand, then 2 response frames (3 in the thorough tier) of any kind, each for one of the calls or a stream that does not exist, arriving one after the other
func HandlerRoutes() { route(newHandler(), steps(2, 3)) }

// HandlerControls asks for more and cancels.
//
//sv:harness prop=C43 preempt=0 dpreempt=0 time=60 dtime=600
//sv:bound one stream or channel call, then 3 steps (4 in the thorough tier): further demand (any positive amount), cancellation or a response frame of any kind
func HandlerControls() { control(newHandler()) }

// HandlerInput sends the elements of a channel.
//
//sv:harness prop=C43 preempt=0 dpreempt=0 time=60 dtime=600
//sv:bound one channel call, then 4 steps (5 in the thorough tier): demand of the peer (any positive amount), an element, completion or failure of the input, cancellation by the peer, completion or failure of the response, or cancellation by the caller
func HandlerInput() { input(newHandler()) }

// HandlerCallsAtOnce makes calls whose responses arrive at once.
//
//sv:harness prop=C43 sched=1 preempt=1 dpreempt=2 time=60 dtime=600
//sv:bound two concurrent calls (each a blocking request, or a stream of two elements that is read; or a stream without an end that is cancelled after its first element or at any moment) whose responses arrive from another goroutine while the request is still being sent; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points; data races included
func HandlerCallsAtOnce() {
	sv.Races()
	n := newHandler()
	sv.Assume(!n.server)
	n.spawn = func(f func()) { go f() }
	atOnce(n)
}

// HandlerImports looks up operations of the peer.
//
//sv:harness prop=C43 time=30 preempt=0 dpreempt=0
//sv:bound a table of 2 operations of any kind, direction and index with any namespaces of up to 1 and names of up to 2 bytes; any name and kind looked up
func HandlerImports() {
	n := newHandler()
	var t operations.Table
	for i := 0; i < 2; i++ {
		op := operations.Operation{
			Index:     sv.U32("index"),
			Type:      operations.RequestType(1 + sv.Choose("type", 4)),
			Direction: operations.Direction(1 + sv.Choose("direction", 2)),
			Namespace: sv.String("ns", 1),
			Operation: sv.String("op", 2),
		}
		t = append(t, op)
	}
	n.deliver(&frames.Setup{Data: t.ToBytes()})
	ns, op := sv.String("ns", 1), sv.String("op", 2)
	kind := sv.Choose("kind", 4)
	want := uint32(0)
	for i := len(t) - 1; i >= 0; i-- {
		o := t[i]
		if o.Direction == operations.Export && int(o.Type) == kind+1 && o.Namespace == ns && o.Operation == op {
			want = o.Index
		}
	}
	var got uint32
	switch kind {
	case 0:
		got = n.caller.ImportRequestResponse(ns, op)
	case 1:
		got = n.caller.ImportFireAndForget(ns, op)
	case 2:
		got = n.caller.ImportRequestStream(ns, op)
	case 3:
		got = n.caller.ImportRequestChannel(ns, op)
	}
	sv.Assert(got == want, "import")
	if want != 0 {
		sv.Reach("import")
	}
}

// HandlerRefused sends something that is too large.
//
//sv:harness prop=C47 preempt=0 dpreempt=1 time=60 dtime=400
//sv:bound a response of one result, or of up to 3 elements of a stream or channel, or a request of any kind, or up to 3 elements of the input of a channel, one of which is refused by the transport; elements sent eagerly or as asked for (at once or in two steps), followed by completion, failure or nothing
func HandlerRefused() {
	n := newHandler()
	n.limit = 64
	refuse(n, 64)
}

// StreamsForget ends streams without a frame of the peer.
//
//sv:harness prop=C42 preempt=0 dpreempt=0 time=60
//sv:bound a call of any kind whose request, or first or second element of input, cannot be sent, or that is cancelled before or after it is sent, or whose input fails after up to 1 element
func StreamsForget() {
	var l proxy.Lookup
	left := 99 // frames that can be sent
	sent := 0
	send := func(frames.Frame) error {
		if left--; left < 0 {
			return errRefused
		}
		sent++
		return nil
	}
	ctx := context.Background()
	kind := sv.Choose("kind", 3)
	req := frames.RequestPayload{FrameType: types[[]int{rr, rs, rc}[kind]], StreamID: streamID("id")}
	end := sv.Choose("end", 4)
	if end == 0 {
		left = 0
		if kind == 2 {
			left = sv.Choose("left", 3)
		}
	}
	ended := 0
	if kind == 0 {
		sv.Assume(end == 0)
		proxy.Mono(ctx, req, send, l.Add, l.Remove).Subscribe(mono.Subscribe[payload.Payload]{OnError: func(error) { ended++ }})
		sv.Assert(ended == 1 && l.IsEmpty(), "refused")
		sv.Reach("refused")
		return
	}
	var in flux.Flux[payload.Payload]
	if kind == 2 {
		in = flux.Create(func(s flux.Sink[payload.Payload]) {
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
			if end == 3 && sv.Bool("at-once") {
				s.Error(errA)
				return
			}
			s.Next(payload.New(nil, nil))
			s.Next(payload.New(nil, nil))
			if end == 3 {
				s.Error(errA)
			}
		})
	} else {
		sv.Assume(end != 3)
	}
	f := proxy.Flux(ctx, req, in, send, l.Add, l.Remove)
	f.Subscribe(flux.Subscribe[payload.Payload]{NoRequest: true, OnError: func(error) { ended++ }})
	if end != 1 {
		f.Subscription().Request(1)
		sv.Quiesce()
	}
	if end == 1 || end == 2 {
		sv.Assert(!l.IsEmpty() && ended == 0, "running")
		f.Subscription().Cancel()
		sv.Assert(ended == 0, "cancelled")
		sv.Assert(end != 1 || sent == 0, "cancel-unsent")
	} else {
		sv.Assert(ended == 1, "failed")
	}
	sv.Assert(l.IsEmpty(), "forgotten")
	sv.Reach("end")
}
