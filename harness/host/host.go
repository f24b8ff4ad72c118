package conn

import (
	"context"
	"encoding/binary"

	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// The host is checked against a guest whose memory and functions are stand-ins; what the host offers
// to guests is called the way a guest does.

// memory is the memory of the guest.
type memory struct {
	api.Memory
	b []byte
}

func (m *memory) Size() uint32 { return uint32(len(m.b)) }

func (m *memory) Read(at, n uint32) ([]byte, bool) {
	if uint64(at)+uint64(n) > uint64(len(m.b)) {
		return nil, false
	}
	return m.b[at : at+n : at+n], true
}

func (m *memory) Write(at uint32, v []byte) bool {
	b, ok := m.Read(at, uint32(len(v)))
	if ok {
		copy(b, v)
	}
	return ok
}

func (m *memory) WriteByte(at uint32, v byte) bool { return m.Write(at, []byte{v}) }

func (m *memory) ReadByte(at uint32) (byte, bool) {
	b, ok := m.Read(at, 1)
	if !ok {
		return 0, false
	}
	return b[0], true
}

func (m *memory) WriteString(at uint32, v string) bool { return m.Write(at, []byte(v)) }

func (m *memory) WriteUint32Le(at, v uint32) bool {
	return m.Write(at, binary.LittleEndian.AppendUint32(nil, v))
}

func (m *memory) ReadUint32Le(at uint32) (uint32, bool) {
	b, ok := m.Read(at, 4)
	if !ok {
		return 0, false
	}
	return binary.LittleEndian.Uint32(b), true
}

type function struct {
	api.Function
	f func(ctx context.Context, params []uint64)
}

func (f *function) Call(ctx context.Context, params ...uint64) ([]uint64, error) {
	f.f(ctx, params)
	return nil, nil
}

// guestModule is the guest the host instance belongs to.
type guestModule struct {
	api.Module
	mem   memory
	funcs map[string]*function

	ctx     context.Context
	in, out uint32 // the buffers it shares: from and to the host
	inSize  uint32
	ops     func()
	sends   int

	r     *runtime
	fails bool // to instantiate
}

func (m *guestModule) Name() string                     { return "guest" }
func (m *guestModule) String() string                   { return "guest" }
func (m *guestModule) Memory() api.Memory               { return &m.mem }
func (m *guestModule) ExportedMemory(string) api.Memory { return &m.mem }
func (m *guestModule) ExportedFunction(n string) api.Function {
	if f := m.funcs[n]; f != nil {
		return f
	}
	return nil
}

const outAt = 8

// import calls a function the host offers.
func (m *guestModule) call(name string, params ...uint64) {
	m.r.offered["wasmrs."+name](m.ctx, m, params)
}

type hostNode struct {
	*node
	m       *guestModule
	preempt int
	i       *host.Instance
}

// newHost instantiates a guest whose buffer for the host has n bytes.
func newHost(n int) *hostNode {
	sv.Preempt(-1)
	h := &hostNode{node: &node{server: true}, m: &guestModule{}}
	m := h.m
	m.funcs = map[string]*function{
		"__wasmrs_init": {f: func(ctx context.Context, p []uint64) {
			m.ctx = ctx
			m.inSize = uint32(p[0])
			m.out, m.in = outAt, uint32(outAt+n+8)
			m.mem.b = make([]byte, int(m.in+m.inSize)+8)
			m.call("__init_buffers", uint64(m.in), uint64(m.out))
		}},
		"__wasmrs_op_list_request": {f: func(ctx context.Context, p []uint64) {
			if m.ops != nil {
				m.ops()
			}
		}},
		"__wasmrs_send": {f: func(ctx context.Context, p []uint64) {
			m.sends++
			sv.Assert(m.sends == 1, "reentered")
			sv.Assert(p[0] <= uint64(m.inSize), "overrun")
			h.send(whole(m.mem.b[m.in : m.in+uint32(p[0])]))
			m.sends--
		}},
	}
	h.deliver = func(f frames.Frame) { h.m.call("__send", uint64(put(m.mem.b[m.out:m.out+uint32(n)], f))) }
	return h
}

func (h *hostNode) run() *hostNode {
	i, err := instantiate(h.m)
	sv.Assert(err == nil, "instance")
	h.i, h.caller, h.export = i, i, &imports{i: i}
	h.idle = sv.Quiesce()
	sv.Preempt(h.preempt)
	return h
}

// imports registers operations with the instance.
type imports struct {
	i          *host.Instance
	a, b, c, d uint32
}

func (x *imports) rr(h invoke.RequestResponseHandler) {
	x.i.SetRequestResponseHandler(x.a, h)
	x.a++
}

func (x *imports) fnf(h invoke.FireAndForgetHandler) {
	x.i.SetFireAndForgetHandler(x.b, h)
	x.b++
}

func (x *imports) rs(h invoke.RequestStreamHandler) {
	x.i.SetRequestStreamHandler(x.c, h)
	x.c++
}

func (x *imports) rc(h invoke.RequestChannelHandler) {
	x.i.SetRequestChannelHandler(x.d, h)
	x.d++
}

// HostRequests answers one request.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound as HandlerRequests, encoded in the shared buffer
func HostRequests() { requests(newHost(64).run().node) }

// HostSurvives receives frames that make no sense, one after the other.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=90 dtime=400
//sv:bound as HandlerSurvives with one frame (2 in the thorough tier)
func HostSurvives() { survive(newHost(64).run().node, steps(1, 2), true) }

// HostNested serves a request by calling the guest and waiting for it.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound as HandlerNested, with a guest buffer of 64 bytes
func HostNested() { nested(newHost(64).run().node, true) }

// HostChannels serves a channel whose two directions do anything.
//
//sv:harness prop=C48 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound as HandlerChannels, with a guest buffer of 64 bytes
func HostChannels() { channel(newHost(64).run().node, steps(3, 4)) }

// HostSlow serves a stream or channel whose operation takes its time.
//
//sv:harness prop=C48 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound as HandlerSlow
func HostSlow() { slow(newHost(64).run().node) }

// HostUnknown receives frames for streams that do not exist.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound one frame of any kind (2 in the thorough tier; set-up frames with up to 6 arbitrary bytes) on any stream id, or a request of any kind with up to 8 arbitrary bytes of metadata
func HostUnknown() { unknown(newHost(64).run().node, steps(1, 2)) }

// HostForgets ends a stream and uses its id again.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound as HandlerForgets
func HostForgets() { forget(newHost(64).run().node) }

// HostRoutes delivers responses to two calls.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60 dtime=600
//sv:bound as HandlerRoutes
func HostRoutes() { route(newHost(64).run().node, steps(2, 3)) }

// HostControls asks for more and cancels.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60 dtime=600
//sv:bound as HandlerControls
func HostControls() { control(newHost(64).run().node) }

// HostInput sends the elements of a channel.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60 dtime=600
//sv:bound as HandlerInput
func HostInput() { input(newHost(64).run().node) }

// HostBuffer receives any bytes.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound a buffer of which the first 7 bytes (11 in the thorough tier) are arbitrary, or a buffer starting with a length between 6 and 9 (6 and 20) and as many arbitrary bytes, followed by 3 more; with any end position among these or outside the memory; one open stream and one operation of every kind
func HostBuffer() {
	h := newHost(64).run()
	r := newReply(1)
	r.plain = true
	serve(h.node, r, nil)
	h.deliver(request(rc, 1, opMetadata(0), nil, 1))
	sv.Quiesce()
	buf := h.m.mem.b[h.m.out : h.m.out+64]
	for i := range buf {
		buf[i] = 0
	}
	var b []byte
	if sv.Bool("any") {
		b = sv.BytesN("buffer", steps(7, 11))
	} else {
		n := 6 + sv.Choose("length", steps(4, 15))
		b = sv.BytesN("buffer", 3+n+3)
		b[0], b[1], b[2] = 0, 0, byte(n)
	}
	copy(buf, b)
	end := sv.U32("end")
	sv.Assume(end <= uint32(len(b)) || end > uint32(len(h.m.mem.b)))
	h.m.call("__send", uint64(end))
	sv.Assert(sv.Quiesce() == h.idle, "blocked")
	h.alive()
}

// HostFrames receives several frames at once.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60
//sv:bound 2 requests in one buffer, with any stream ids and data, preceded, separated or followed by a frame that is too short, undecodable or for an unknown stream
func HostFrames() {
	h := newHost(96).run()
	buf := h.m.mem.b[h.m.out : h.m.out+96]
	h.export.rr(func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just[payload.Payload](payload.New(p.Data()))
	})
	bad := sv.Choose("where", 4)
	n := 0
	junk := 0
	at := func(k int) {
		if bad != k {
			return
		}
		switch sv.Choose("junk", 4) {
		case 0:
			buf[n], buf[n+1], buf[n+2], buf[n+3] = 0, 0, 1, sv.U8("byte")
			n += 4
		case 1:
			buf[n], buf[n+1], buf[n+2] = 0, 0, 0
			n += 3
		case 2:
			// a request cut short
			m := put(buf[n:], request(rs, 7, nil, nil, 1)) - 4
			buf[n+2] = byte(m - 3)
			n += m
			junk = 1
		case 3:
			n += put(buf[n:], &frames.Cancel{StreamID: 9})
		}
	}
	var ids [2]uint32
	var data [2][]byte
	for i := 0; i < 2; i++ {
		at(i)
		ids[i], data[i] = streamID("id"), sv.Bytes("data", 2)
		n += put(buf[n:], request(rr, ids[i], opMetadata(0), data[i], 1))
	}
	at(2)
	h.m.call("__send", uint64(n))
	fs := h.take()
	sv.Assert(len(fs) == 2+junk, "answers")
	// requests are answered independently
	for _, f := range fs {
		if junk == 1 && f.GetStreamID() == 7 {
			if _, ok := f.(*frames.Error); ok {
				junk = 2
				continue
			}
		}
		k := 0
		if p, ok := f.(*frames.Payload); ids[0] == 0 || !ok || f.GetStreamID() != ids[0] || len(p.Data) != len(data[0]) || string(p.Data) != string(data[0]) {
			k = 1
		}
		isPayload(f, ids[k], true, true, payload.New(data[k], nil), "answer")
		ids[k] = 0
	}
	sv.Assert(junk != 1, "junk")
	sv.Reach("answers")
}

// HostFits sends frames of any size.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=60
//sv:bound a request answered, a stream element sent or a call made with 0 bytes of data or so many that the frame exceeds the buffer of the guest by -2 to 2 bytes
func HostFits() {
	h := newHost(64)
	h.run()
	size := int(h.m.inSize)
	over := sv.Choose("over", 6)
	md := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	fit := func(f *frames.Payload, r *frames.RequestPayload) ([]byte, bool) {
		if over == 5 {
			return nil, true
		}
		n := size - 3 + over - 2
		var d []byte
		if f != nil {
			d = make([]byte, n-int(f.Size()))
		} else {
			d = make([]byte, n-int(r.Size()))
		}
		d[0], d[len(d)-1] = sv.U8("first"), sv.U8("last")
		return d, over <= 2
	}
	id := uint32(1)
	same := func(got, want []byte, label string) {
		sv.Assert(len(got) == len(want), label)
		if len(want) > 0 {
			sv.Assert(got[0] == want[0] && got[len(got)-1] == want[len(want)-1], label)
		}
	}
	switch kind := sv.Choose("kind", 4); kind {
	case 0:
		data, ok := fit(&frames.Payload{Metadata: md, Next: true, Complete: true}, nil)
		h.export.rr(func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
			return mono.Just[payload.Payload](payload.New(data, md))
		})
		h.deliver(request(rr, id, opMetadata(0), nil, 1))
		fs := h.take()
		sv.Assert(len(fs) == 1, "answer")
		if ok {
			p, isp := fs[0].(*frames.Payload)
			sv.Assert(isp && p.StreamID == id && p.Next && p.Complete, "answer")
			same(p.Data, data, "answer")
			sv.SameBytes(p.Metadata, md, "answer")
			sv.Reach("fits")
		} else {
			isError(fs[0], id, "", "refused")
			sv.Reach("refused")
		}
	case 1:
		data, ok := fit(&frames.Payload{Metadata: md, Next: true}, nil)
		h.export.rs(func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
			return flux.FromSlice([]payload.Payload{payload.New(data, md), payload.New([]byte{1})})
		})
		h.deliver(request(rs, id, opMetadata(0), nil, 9))
		fs := h.take()
		if ok {
			sv.Assert(len(fs) == 3, "elements")
			same(fs[0].(*frames.Payload).Data, data, "element")
			isPayload(fs[2], id, false, true, nil, "end")
		} else {
			sv.Assert(len(fs) == 1, "refused")
			isError(fs[0], id, "", "refused")
		}
	case 2, 3:
		end, fail := 0, 0
		r := frames.RequestPayload{FrameType: types[rr], Metadata: md, Complete: true}
		if kind == 3 {
			r = frames.RequestPayload{FrameType: types[rs], Metadata: md, InitialN: 1}
		}
		data, ok := fit(nil, &r)
		p := payload.New(data, md)
		if kind == 2 {
			h.caller.RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(payload.Payload) { end++ },
				OnError:   func(error) { fail++ },
			})
		} else {
			h.caller.RequestStream(context.Background(), p).Subscribe(flux.Subscribe[payload.Payload]{
				OnComplete: func() { end++ },
				OnError:    func(error) { fail++ },
			})
		}
		fs := h.take()
		if ok {
			sv.Assert(len(fs) == 1 && end == 0 && fail == 0, "called")
			same(fs[0].(*frames.RequestPayload).Data, data, "called")
		} else {
			sv.Assert(len(fs) == 0 && end == 0 && fail == 1, "call-refused")
			sv.Reach("call-refused")
		}
	}
}

// HostImports learns the operations of the guest.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=30
//sv:bound a table of up to 2 operations of any kind, direction and index with names of one letter; or up to 8 arbitrary bytes; or any place outside the memory
func HostImports() {
	h := newHost(64)
	var t operations.Table
	var raw []byte
	kind := sv.Choose("table", 3)
	h.m.ops = func() {
		switch kind {
		case 0:
			for i := sv.Choose("operations", 3); i > 0; i-- {
				t = append(t, operations.Operation{
					Index:     sv.U32("index"),
					Type:      operations.RequestType(1 + sv.Choose("type", 4)),
					Direction: operations.Direction(1 + sv.Choose("direction", 2)),
					Namespace: sv.StringN("ns", 1),
					Operation: sv.StringN("op", 1),
				})
			}
			raw = t.ToBytes()
		case 1:
			raw = sv.Bytes("raw", 8)
		case 2:
			at, n := sv.U32("at"), sv.U32("size")
			sv.Assume(uint64(at)+uint64(n) > uint64(len(h.m.mem.b)))
			h.m.call("__op_list", uint64(at), uint64(n))
			return
		}
		copy(h.m.mem.b[h.m.out:], raw)
		h.m.call("__op_list", uint64(h.m.out), uint64(len(raw)))
	}
	h.run()
	if kind == 0 {
		got := h.i.Operations()
		sv.Assert(len(got) == len(t), "operations")
		for i, o := range t {
			g := got[i]
			sv.Assert(g.Index == o.Index && g.Type == o.Type && g.Direction == o.Direction, "operation")
			sv.SameString(g.Namespace, o.Namespace, "operation")
			sv.SameString(g.Operation, o.Operation, "operation")
		}
		sv.Reach("operations")
	}
	h.alive()
}

// HostInstantiates checks modules that lack a function.
//
//sv:harness prop=C45 preempt=0 dpreempt=0 time=30
//sv:bound any subset of the functions a guest exports
func HostInstantiates() {
	h := newHost(64)
	missing := false
	for _, n := range []string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"} {
		if sv.Bool("missing") {
			delete(h.m.funcs, n)
			missing = true
		}
	}
	i, err := instantiate(h.m)
	sv.Assert((err != nil) == missing, "refused")
	sv.Assert((i == nil) == missing, "instance")
	sv.Reach("checked")
}

// HostSurvivesAtOnce receives frames while earlier ones are being processed.
//
//sv:harness prop=C45 sched=1 preempt=1 dpreempt=2 time=60 dtime=400
//sv:bound one stream of any kind opened by the guest (in either role in the thorough tier; requests answered by one element, success or failure, at once or later; channel input unused, subscribed or cancelled) with demands of 2, then 1 frame of any kind (2 in the thorough tier) arriving while the requests are being processed, interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points; data races included
func HostSurvivesAtOnce() {
	sv.Races()
	h := newHost(64)
	h.preempt = steps(1, 2)
	h.theirs = !sv.Deep()
	survive(h.run().node, steps(1, 2), false)
}

// HostCallsAtOnce makes calls whose responses arrive at once.
//
//sv:harness prop=C45 sched=1 preempt=1 dpreempt=2 time=60 dtime=600
//sv:bound two concurrent calls (each a blocking request, or a stream of two elements that is read; or a stream without an end that is cancelled after its first element or at any moment) answered by the guest as soon as it receives them; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points; data races included
func HostCallsAtOnce() {
	sv.Races()
	h := newHost(64)
	h.preempt = steps(1, 2)
	n := h.run().node
	n.spawn = func(f func()) { f() }
	atOnce(n)
}

// HostRefused sends something that is too large.
//
//sv:harness prop=C47 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound as HandlerRefused, or a failure with a text, exceeding the buffer of the guest
func HostRefused() {
	h := newHost(64).run()
	refuse(h.node, int(h.m.inSize))
}
