// Package conn states the properties of the connection handler, the guest and the host instance.
package conn

import (
	"context"
	"encoding/binary"
	"errors"
	"sync"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

const (
	rr = iota
	fnf
	rs
	rc
)

var (
	errA  = errors.New("a")
	types = []frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}
)

// node is one end of a connection.
type node struct {
	caller  invoke.Caller
	deliver func(frames.Frame) // a frame arrives
	mu      sync.Mutex
	sent    []frames.Frame
	react   func(frames.Frame) // the peer's reaction to a frame
	hasty   bool               // fixed demand
	theirs  bool               // only the peer opens streams
	spawn   func(func())       // runs the peer's answers
	server  bool               // whether its own stream ids are even
	idle    int                // goroutines it blocks on purpose
	export  exporter
	reached *uint32 // index its calls get on their way
	limit   uint32  // frames larger than this are refused, if any
}

type exporter interface {
	rr(invoke.RequestResponseHandler)
	fnf(invoke.FireAndForgetHandler)
	rs(invoke.RequestStreamHandler)
	rc(invoke.RequestChannelHandler)
}

var errRefused = errors.New("too large")

func (n *node) send(f frames.Frame) error {
	if n.limit > 0 && f.Size() > n.limit {
		return errRefused
	}
	n.mu.Lock()
	n.sent = append(n.sent, f)
	n.mu.Unlock()
	if n.react != nil {
		n.react(f)
	}
	return nil
}

// take returns the frames sent since the last call.
func (n *node) take() []frames.Frame {
	sv.Quiesce()
	n.mu.Lock()
	fs := n.sent
	n.sent = nil
	n.mu.Unlock()
	return fs
}

// globals registers operations for the handler and the guest.
type globals struct{}

func (globals) rr(h invoke.RequestResponseHandler) { invoke.ExportRequestResponse("n", "o", h) }
func (globals) fnf(h invoke.FireAndForgetHandler)  { invoke.ExportFireAndForget("n", "o", h) }
func (globals) rs(h invoke.RequestStreamHandler)   { invoke.ExportRequestStream("n", "o", h) }
func (globals) rc(h invoke.RequestChannelHandler)  { invoke.ExportRequestChannel("n", "o", h) }

// request is a request frame.
func request(kind int, id uint32, md, data []byte, initialN uint32) *frames.RequestPayload {
	return &frames.RequestPayload{FrameType: types[kind], StreamID: id, Metadata: md, Data: data, InitialN: initialN}
}

// opMetadata names operation op.
func opMetadata(op byte) []byte { return []byte{0, 0, 0, op, 0, 0, 0, 0} }

// index makes metadata that starts with an index.
func index(i uint32, rest ...byte) []byte {
	return append(binary.BigEndian.AppendUint32(nil, i), rest...)
}

func streamID(name string) uint32 {
	id := sv.U32(name)
	sv.Assume(id != 0 && id < 1<<31)
	return id
}

func isError(f frames.Frame, id uint32, text, label string) {
	e, ok := f.(*frames.Error)
	sv.Assert(ok, label+"-kind")
	sv.Assert(e.StreamID == id, label+"-stream")
	if text != "" {
		sv.SameString(e.Data, text, label+"-text")
	}
}

// isPayload checks a response frame.
func isPayload(f frames.Frame, id uint32, next, complete bool, p payload.Payload, label string) {
	e, ok := f.(*frames.Payload)
	sv.Assert(ok, label+"-kind")
	sv.Assert(e.StreamID == id, label+"-stream")
	sv.Assert(e.Next == next, label+"-next")
	sv.Assert(e.Complete == complete, label+"-complete")
	sv.Assert(!e.Follows, label+"-follows")
	if next {
		sv.SameBytes(e.Data, p.Data(), label+"-data")
		sv.SameBytes(e.Metadata, p.Metadata(), label+"-metadata")
	}
}

func pay(name string) payload.Payload {
	return payload.New(sv.BytesN(name+".data", 1), sv.BytesN(name+".md", 1))
}

func samePayload(got, want payload.Payload, label string) {
	sv.SameBytes(got.Data(), want.Data(), label+"-data")
	sv.SameBytes(got.Metadata(), want.Metadata(), label+"-metadata")
}

// called records the invocations of one kind of operation.
type called struct {
	kind, idx int
	p         payload.Payload
}

// reply is how an operation answers.
type reply struct {
	vals  []payload.Payload
	plain bool // little variety
	quick bool // answers at once
	never bool // does not answer later
	fails bool
	later bool // signals after the invocation
	fire  func()
}

// decide picks the outcome when the operation is invoked.
func (r *reply) decide() {
	r.later = !r.quick && sv.Bool("later")
	r.fails = !(r.never && r.later) && sv.Bool("fails")
}

func (r *reply) mono() mono.Mono[payload.Payload] {
	r.decide()
	emit := func(s mono.Sink[payload.Payload]) {
		if r.fails {
			s.Error(errA)
		} else {
			s.Success(r.vals[0])
		}
	}
	if r.later {
		p := mono.NewProcessor[payload.Payload]()
		r.fire = func() { emit(p) }
		return p
	}
	if !r.plain && sv.Bool("create") {
		return mono.Create(emit)
	}
	if r.fails {
		return mono.Error[payload.Payload](errA)
	}
	return mono.Just(r.vals[0])
}

// flux returns the elements; eager ones are sent without being asked for.
func (r *reply) flux() (f flux.Flux[payload.Payload], eager bool) {
	r.decide()
	emit := func(s flux.Sink[payload.Payload]) {
		for _, v := range r.vals {
			s.Next(v)
		}
		if r.fails {
			s.Error(errA)
		} else {
			s.Complete()
		}
	}
	if r.later {
		p := flux.NewProcessor[payload.Payload]()
		r.fire = func() { emit(p) }
		return p, true
	}
	if !r.fails && (r.plain || sv.Bool("slice")) {
		return flux.FromSlice(r.vals), false
	}
	if r.fails && len(r.vals) == 0 && sv.Bool("const") {
		return flux.Error[payload.Payload](errA), true
	}
	return flux.Create(emit), true
}

func newReply(max int) *reply {
	r := &reply{}
	for i := 0; i < max; i++ {
		r.vals = append(r.vals, pay("v"))
	}
	return r
}

// Requests answers one request.
func requests(n *node) {
	var calls []called
	note := func(kind, idx int, p payload.Payload) {
		n.mu.Lock()
		calls = append(calls, called{kind, idx, p})
		n.mu.Unlock()
	}
	kind := sv.Choose("kind", 4)
	elements := 1
	if kind == rs || kind == rc {
		elements = sv.Choose("elements", 3)
	}
	r := newReply(elements)
	eager := true
	in := 0
	for idx := 0; idx < 2; idx++ {
		idx := idx
		n.export.rr(func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			note(rr, idx, p)
			return r.mono()
		})
		n.export.fnf(func(_ context.Context, p payload.Payload) { note(fnf, idx, p) })
		n.export.rs(func(_ context.Context, p payload.Payload) (f flux.Flux[payload.Payload]) {
			note(rs, idx, p)
			f, eager = r.flux()
			return f
		})
		n.export.rc(func(_ context.Context, p payload.Payload, i flux.Flux[payload.Payload]) (f flux.Flux[payload.Payload]) {
			note(rc, idx, p)
			if i != nil {
				in++
			}
			f, eager = r.flux()
			return f
		})
	}
	id := streamID("id")
	md, data := sv.Bytes("md", 10), sv.Bytes("data", 3)
	initialN := sv.U32("n")
	n.deliver(request(kind, id, md, data, initialN))
	fs := n.take()
	if len(md) < 8 {
		sv.Assert(len(fs) == 1 && len(calls) == 0, "short")
		isError(fs[0], id, "", "short")
		sv.Reach("short")
		return
	}
	if md[0] != 0 || md[1] != 0 || md[2] != 0 || md[3] > 1 {
		sv.Assert(len(fs) == 1 && len(calls) == 0, "unknown")
		isError(fs[0], id, "not_found", "unknown")
		sv.Reach("unknown")
		return
	}
	sv.Assert(len(calls) == 1, "invoked-once")
	c := calls[0]
	sv.Assert(c.kind == kind, "invoked-kind")
	sv.Assert(c.idx == int(md[3]), "invoked-operation")
	sv.SameBytes(c.p.Data(), data, "invoked-data")
	got := c.p.Metadata()
	sv.Assert(len(got) >= len(md)-8, "invoked-metadata")
	sv.SameBytes(got[len(got)-len(md)+8:], md[8:], "invoked-metadata")
	if kind == fnf {
		sv.Assert(len(fs) == 0, "fnf-answered")
		sv.Reach("fnf")
		return
	}
	if r.later {
		sv.Assert(len(fs) == 0, "answered-early")
		r.fire()
		fs = n.take()
	}
	if kind == rr {
		sv.Assert(len(fs) == 1, "answer")
		if r.fails {
			isError(fs[0], id, "a", "failure")
		} else {
			isPayload(fs[0], id, true, true, r.vals[0], "answer")
		}
		sv.Reach("rr")
		return
	}
	sv.Assert(kind == rs || in == 1, "input")
	if !eager {
		// the peer must have asked for the elements, and asks for the rest
		asked := int(initialN)
		k := 0
		for ; k < len(r.vals) && k < asked; k++ {
			sv.Assert(k < len(fs), "element")
			isPayload(fs[k], id, true, false, r.vals[k], "element")
		}
		if k < len(r.vals) {
			sv.Assert(len(fs) == k, "not-asked")
			n.deliver(&frames.RequestN{StreamID: id, N: 5})
			fs = append(fs, n.take()...)
			sv.Reach("asked")
		} else if len(fs) == k {
			// completion of an empty rest may need to be asked for
			n.deliver(&frames.RequestN{StreamID: id, N: 1})
			fs = append(fs, n.take()...)
		}
	}
	sv.Assert(len(fs) == len(r.vals)+1, "frames")
	for k, v := range r.vals {
		isPayload(fs[k], id, true, false, v, "element")
	}
	last := fs[len(r.vals)]
	if r.fails {
		isError(last, id, "a", "failure")
	} else {
		isPayload(last, id, false, true, nil, "completion")
	}
	if kind == rs {
		sv.Reach("rs")
	} else {
		sv.Reach("rc")
	}
}
