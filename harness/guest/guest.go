package conn

import (
	"context"
	"unsafe"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
)

// The guest is analysed as built for WebAssembly, with the functions it imports replaced by
// recorders.

func view(p uintptr, n int) []byte { return unsafe.Slice((*byte)(unsafe.Pointer(p)), n) }

type guestNode struct {
	*node
	in, out []byte // the buffers it shares
	sends   int
}

func newGuest(in, out int) *guestNode {
	g := &guestNode{node: &node{export: globals{}, caller: guest.HostInvoker}}
	guest.VerifImport__init_buffers = func(i, o uintptr) {
		g.in, g.out = view(i, in), view(o, out)
	}
	guest.VerifImport__send = func(n uint32) {
		sv.Assert(int(n) <= len(g.out), "overrun")
		g.sends++
		g.send(whole(g.out[:n]))
	}
	sv.Assert(guest.Init(uint32(in), uint32(out), 1024), "init")
	sv.Assert(len(g.in) == in, "buffers")
	g.deliver = func(f frames.Frame) { guest.GuestSend(uint32(put(g.in, f))) }
	return g
}

// GuestRequests answers one request.
//
//sv:harness prop=C44 time=60 dtime=400
//sv:bound as HandlerRequests, encoded in the shared buffer
func GuestRequests() { requests(newGuest(64, 64).node) }

// GuestSurvives receives frames that make no sense.
//
//sv:harness prop=C44 time=60 dtime=400
//sv:bound as HandlerSurvives
func GuestSurvives() { survive(newGuest(64, 64).node, steps(2, 3), true) }

// GuestNested serves a request by calling the host.
//
//sv:harness prop=C44 preempt=0 dpreempt=1 time=60 dtime=400
//sv:bound as HandlerNested, with buffers of 64 bytes and operations that answer once the host has and do not wait
func GuestNested() { nested(newGuest(64, 64).node, false) }

// GuestChannels serves a channel whose two directions do anything.
//
//sv:harness prop=C48 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound as HandlerChannels, with up to 2 (3 in the thorough tier) actions and buffers of 64 bytes
func GuestChannels() { channel(newGuest(64, 64).node, steps(2, 3)) }

// GuestUnknown receives frames for streams that do not exist.
//
//sv:harness prop=C44 time=60 dtime=400
//sv:bound one frame of any kind (2 in the thorough tier; set-up frames with up to 6 arbitrary bytes) on any stream id, or a request of any kind with up to 8 arbitrary bytes of metadata
func GuestUnknown() { unknown(newGuest(64, 64).node, steps(1, 2)) }

// GuestForgets ends a stream and uses its id again.
//
//sv:harness prop=C44 time=60 dtime=400
//sv:bound as HandlerForgets
func GuestForgets() { forget(newGuest(64, 64).node) }

// GuestRoutes delivers responses to two calls.
//
//sv:harness prop=C44 time=60 dtime=600
//sv:bound as HandlerRoutes
func GuestRoutes() { route(newGuest(64, 64).node, steps(2, 3)) }

// GuestControls asks for more and cancels.
//
//sv:harness prop=C44 time=60 dtime=600
//sv:bound as HandlerControls
func GuestControls() { control(newGuest(64, 64).node) }

// GuestInput sends the elements of a channel.
//
//sv:harness prop=C44 time=60 dtime=600
//sv:bound as HandlerInput
func GuestInput() { input(newGuest(64, 64).node) }

// GuestBuffer receives any bytes.
//
//sv:harness prop=C44 time=60 dtime=400
//sv:bound a buffer of 32 bytes of which the first 7 (11 in the thorough tier) are arbitrary, or a buffer starting with a length between 6 and 10 (6 and 20) and as many arbitrary bytes, followed by 3 more; with any end position among these or outside the buffer; one open stream and one operation of every kind
func GuestBuffer() {
	g := newGuest(32, 64)
	r := newReply(1)
	r.plain = true
	serve(g.node, r, nil)
	g.deliver(request(rc, 2, opMetadata(0), nil, 1))
	var b []byte
	if sv.Bool("any") {
		b = sv.BytesN("buffer", steps(7, 11))
	} else {
		n := 6 + sv.Choose("length", steps(5, 15))
		b = sv.BytesN("buffer", 3+n+3)
		b[0], b[1], b[2] = 0, 0, byte(n)
	}
	for i := range g.in {
		g.in[i] = 0
	}
	copy(g.in, b)
	end := sv.U32("end")
	sv.Assume(end <= uint32(len(b)) || end > 32)
	guest.GuestSend(end)
	g.alive()
}

// GuestFrames receives several frames at once.
//
//sv:harness prop=C44 time=60
//sv:bound 2 requests in one buffer, with any stream ids and data, preceded, separated or followed by a frame that is too short, undecodable or for an unknown stream
func GuestFrames() {
	g := newGuest(96, 64)
	g.export.rr(func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] { return mono.Just(p) })
	bad := sv.Choose("where", 4)
	n := 0
	junk := 0
	at := func(k int) {
		if bad != k {
			return
		}
		switch sv.Choose("junk", 4) {
		case 0:
			g.in[n], g.in[n+1], g.in[n+2], g.in[n+3] = 0, 0, 1, sv.U8("byte")
			n += 4
		case 1:
			g.in[n], g.in[n+1], g.in[n+2] = 0, 0, 0
			n += 3
		case 2:
			// a request cut short
			m := put(g.in[n:], request(rs, 8, nil, nil, 1)) - 4
			g.in[n+2] = byte(m - 3)
			n += m
			junk = 1
		case 3:
			n += put(g.in[n:], &frames.Cancel{StreamID: 9})
		}
	}
	var ids [2]uint32
	var data [2][]byte
	for i := 0; i < 2; i++ {
		at(i)
		ids[i], data[i] = streamID("id"), sv.Bytes("data", 2)
		n += put(g.in[n:], request(rr, ids[i], opMetadata(0), data[i], 1))
	}
	at(2)
	guest.GuestSend(uint32(n))
	fs := g.take()
	sv.Assert(len(fs) == 2+junk, "answers")
	k := 0
	for i, f := range fs {
		if junk == 1 && i == bad {
			isError(f, 8, "", "junk")
			continue
		}
		isPayload(f, ids[k], true, true, payload.New(data[k], nil), "answer")
		k++
	}
	sv.Reach("answers")
}

// GuestFits sends frames of any size.
//
//sv:harness prop=C44 time=60
//sv:bound a shared buffer of 48 bytes; a request answered, a stream element sent or a call made with up to 52 bytes of data
func GuestFits() {
	const size = 48
	g := newGuest(64, size)
	n := sv.IntRange("n", 0, 52)
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i)
	}
	p := payload.New(data)
	g.export.rr(func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](p)
	})
	g.export.rs(func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
		return flux.FromSlice([]payload.Payload{p, payload.New([]byte{1})})
	})
	id := uint32(2)
	switch kind := sv.Choose("kind", 4); kind {
	case 0:
		g.deliver(request(rr, id, opMetadata(0), nil, 1))
		fs := g.take()
		sv.Assert(len(fs) == 1, "answer")
		if frameFits(&frames.Payload{Data: data, Metadata: p.Metadata(), Next: true, Complete: true}, size) {
			isPayload(fs[0], id, true, true, p, "answer")
			sv.Reach("fits")
		} else {
			isError(fs[0], id, "", "refused")
			sv.Reach("refused")
		}
	case 1:
		g.deliver(request(rs, id, opMetadata(0), nil, 9))
		fs := g.take()
		if frameFits(&frames.Payload{Data: data, Metadata: p.Metadata(), Next: true}, size) {
			sv.Assert(len(fs) == 3, "elements")
			isPayload(fs[0], id, true, false, p, "element")
			isPayload(fs[2], id, false, true, nil, "end")
		} else {
			sv.Assert(len(fs) == 1, "refused")
			isError(fs[0], id, "", "refused")
		}
	case 2, 3:
		end, fail := 0, 0
		var r frames.RequestPayload
		if kind == 2 {
			r = frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, Data: data, Metadata: p.Metadata(), Complete: true}
			g.caller.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(payload.Payload) { end++ },
				OnError:   func(error) { fail++ },
			})
		} else {
			r = frames.RequestPayload{FrameType: frames.FrameTypeRequestStream, Data: data, Metadata: p.Metadata(), InitialN: 1}
			g.caller.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[payload.Payload]{
				OnComplete: func() { end++ },
				OnError:    func(error) { fail++ },
			})
		}
		fs := g.take()
		if frameFits(&r, size) {
			sv.Assert(len(fs) == 1 && end == 0 && fail == 0, "called")
			sv.SameBytes(fs[0].(*frames.RequestPayload).Data, data, "called")
		} else {
			sv.Assert(len(fs) == 0 && end == 0 && fail == 1, "call-refused")
			sv.Reach("call-refused")
		}
	}
}

func frameFits(f frames.Frame, size int) bool { return int(f.Size())+3 <= size }

// GuestAnnounces lists its operations.
//
//sv:harness prop=C44 time=30
//sv:bound up to 2 exported operations of any kind with one-letter names
func GuestAnnounces() {
	var got []byte
	calls := 0
	guest.VerifImport__op_list = func(p uintptr, n uint32) {
		got = append(got, view(p, int(n))...)
		calls++
	}
	newGuest(16, 16)
	for i := 0; i < 2; i++ {
		ns, op := sv.StringN("ns", 1), sv.StringN("op", 1)
		switch sv.Choose("kind", 4) {
		case 0:
			invoke.ExportRequestResponse(ns, op, nil)
		case 1:
			invoke.ExportFireAndForget(ns, op, nil)
		case 2:
			invoke.ExportRequestStream(ns, op, nil)
		case 3:
			invoke.ExportRequestChannel(ns, op, nil)
		}
	}
	guest.OperationList()
	sv.Assert(calls == 1, "announced")
	sv.SameBytes(got, invoke.GetOperationsTable().ToBytes(), "table")
	sv.Reach("announced")
}

// GuestRefused sends something that is too large.
//
//sv:harness prop=C47 time=60 dtime=400
//sv:bound as HandlerRefused, or a failure with a text, exceeding the shared buffer
func GuestRefused() { refuse(newGuest(64, 64).node, 64) }
