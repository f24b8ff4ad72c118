package conn

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// byName calls one operation of the mesh.
type byName struct {
	invoke.Caller
	w      *world
	ns, op string
}

func (c byName) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	return c.w.RequestResponse(ctx, c.ns, c.op, p)
}

func (c byName) FireAndForget(ctx context.Context, p payload.Payload) {
	c.w.FireAndForget(ctx, c.ns, c.op, p)
}

func (c byName) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	return c.w.RequestStream(ctx, c.ns, c.op, p)
}

func (c byName) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	return c.w.RequestChannel(ctx, c.ns, c.op, p, in)
}

// op is operation "o" in namespace "n".
func op(kind int, d operations.Direction, i uint32) operations.Operation {
	return operations.Operation{Type: types4(kind), Direction: d, Index: i, Namespace: "n", Operation: "o"}
}

// all exports an operation of each kind.
func all(idx func(kind int) uint32) (t operations.Table) {
	for k := 0; k < 4; k++ {
		t = append(t, op(k, operations.Export, idx(k)))
	}
	return t
}

// exporter loads a module whose operations have any index.
func exported() (*world, *member) {
	w := newWorld()
	i := sv.U32("exported")
	m := w.module("b", all(func(int) uint32 { return i })...)
	w.load("b")
	m.reached = &i
	m.caller = byName{w: w, ns: "n", op: "o"}
	return w, m
}

// MeshRoutes delivers responses to two calls by name.
//
//sv:harness prop=C81 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound calls as in HandlerRoutes, by name to one module, with any indices in the metadata and in its table; 2 response frames
func MeshRoutes() {
	_, m := exported()
	route(m.node, 2)
}

// MeshControls asks for more and cancels.
//
//sv:harness prop=C81 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound as HandlerControls, by name
func MeshControls() {
	_, m := exported()
	control(m.node)
}

// MeshInput sends the elements of a channel.
//
//sv:harness prop=C81 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound as HandlerInput, by name
func MeshInput() {
	_, m := exported()
	input(m.node)
}

// MeshTargets makes two calls with the same metadata.
//
//sv:harness prop=C81 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound two modules with operations of every kind and any indices; two calls of any kind, by name to the first and by name or import to the second, sharing metadata of up to 10 bytes and data of up to 2, both made before either is subscribed; or calls of names there are not
func MeshTargets() {
	w := newWorld()
	var idx [2][4]uint32
	table := func(k int, ns string) operations.Table {
		t := all(func(kind int) uint32 {
			idx[k][kind] = sv.U32("exported")
			return idx[k][kind]
		})
		for i := range t {
			t[i].Namespace = ns
		}
		return t
	}
	b := w.module("b", table(0, "n")...)
	c := w.module("c", table(1, "m")...)
	w.load("b")
	w.load("c")
	md, data := sv.Bytes("md", 10), sv.Bytes("data", 2)
	if sv.Bool("nil") {
		md = nil
	}
	orig := append([]byte(nil), md...)
	p := payload.New(data, md)
	ctx := context.Background()
	start := func(ns, op string, kind int) func() {
		switch kind {
		case rr:
			if m := w.RequestResponse(ctx, ns, op, p); m != nil {
				return func() { m.Subscribe(mono.Subscribe[payload.Payload]{}) }
			}
		case fnf:
			w.FireAndForget(ctx, ns, op, p)
			return func() {}
		default:
			var f flux.Flux[payload.Payload]
			if kind == rs {
				f = w.RequestStream(ctx, ns, op, p)
			} else {
				f = w.RequestChannel(ctx, ns, op, p, flux.FromSlice([]payload.Payload{p}))
			}
			if f != nil {
				return func() { f.Subscribe(flux.Subscribe[payload.Payload]{}) }
			}
		}
		return nil
	}
	switch sv.Choose("unknown", 3) {
	case 0:
		k1 := sv.Choose("first", 4)
		k2 := sv.Choose("second", 4)
		f := start("n", "o", k1)
		g := start("m", "o", k2)
		sv.Assert(f != nil && g != nil, "found")
		f()
		g()
		for k, m := range []*member{b, c} {
			kind := []int{k1, k2}[k]
			r := m.got("reached")
			sv.Assert(r.FrameType == types[kind], "kind")
			sv.SameBytes(r.Data, data, "data")
			if len(md) >= 4 {
				sv.SameBytes(r.Metadata, index(idx[k][kind], orig[4:]...), "metadata")
				sv.Reach("reached")
			} else {
				sv.Reach("short")
			}
		}
	case 1:
		f := start("n", "p", sv.Choose("kind", 4))
		sv.Assert(f == nil || len(b.take()) == 0, "unknown")
		sv.Reach("unknown")
	case 2:
		start("x", "o", sv.Choose("kind", 4))
		sv.Reach("unknown")
	}
	sv.Assert(len(b.take()) == 0 && len(c.take()) == 0, "nothing")
	sv.SameBytes(p.Metadata(), orig, "kept")
	sv.SameBytes(p.Data(), data, "kept")
}

// MeshRelays passes the frames of a request between two modules.
//
//sv:harness prop=C81 preempt=0 dpreempt=0 time=80 dtime=600
//sv:bound one request of any kind from one module through its import to another, with metadata of 8 to 9 bytes, then up to 2 frames (3 in the thorough tier) from either, of any kind that makes sense, up to the end of the stream
func MeshRelays() {
	w := newWorld()
	kind := sv.Choose("kind", 4)
	i := sv.U32("exported")
	b := w.module("b", op(kind, operations.Export, i))
	a := w.module("a", op(kind, operations.Import, 5))
	for _, n := range [][]string{{"a", "b"}, {"b", "a"}}[sv.Choose("order", 2)] {
		w.load(n)
	}
	id := a.peerID(3)
	rest, data := sv.Bytes("rest", 1), sv.Bytes("data", 2)
	initial := uint32(1)
	if kind == rs || kind == rc {
		initial = uint32(sv.IntRange("n", 1, 1<<31-1))
	}
	a.deliver(request(kind, id, index(5, append([]byte{1, 2, 3, 4}, rest...)...), data, initial))
	r := b.got("reached")
	sv.Assert(r.FrameType == types[kind], "kind")
	sv.SameBytes(r.Metadata, index(i, append([]byte{1, 2, 3, 4}, rest...)...), "metadata")
	sv.SameBytes(r.Data, data, "data")
	sv.Assert(r.InitialN == initial, "demand")
	sv.Assert(len(a.take()) == 0, "early")
	if kind == fnf {
		sv.Reach("fnf")
		sv.Assert(sv.Quiesce() == w.idle, "blocked")
		return
	}
	inEnded, cancelled := kind != rc, false
	for k := steps(2, 3); k > 0; k-- {
		n := 3
		if kind == rs {
			n = 5
		} else if kind == rc {
			n = 9
		}
		var back []frames.Frame
		switch do := sv.Choose("do", n); do {
		case 0, 1:
			// an element, the last one for a simple request
			p := pay("v")
			last := kind == rr || do == 1
			if kind == rr && do == 1 {
				continue
			}
			b.deliver(&frames.Payload{StreamID: r.StreamID, Next: true, Complete: last, Data: p.Data(), Metadata: p.Metadata()})
			back = a.take()
			elements, ends := 0, 0
			for _, f := range back {
				f, ok := f.(*frames.Payload)
				sv.Assert(ok && f.StreamID == id && ends == 0, "element")
				if f.Next {
					elements++
					samePayload(payload.New(f.Data, f.Metadata), p, "element")
				}
				if f.Complete {
					ends++
				}
			}
			sv.Assert(elements == 1 && (ends == 1) == last, "elements")
			sv.Assert(len(b.take()) == 0, "quiet")
			if last {
				sv.Reach("end")
				return
			}
			continue
		case 2:
			b.deliver(&frames.Error{StreamID: r.StreamID, Data: "e"})
			for _, f := range a.take() {
				// input may be cancelled
				if _, ok := f.(*frames.Cancel); kind != rc || !ok {
					back = append(back, f)
				}
			}
			sv.Assert(len(back) == 1, "failure")
			isError(back[0], id, "e", "failure")
			sv.Reach("failure")
			return
		case 3:
			m := uint32(sv.IntRange("more", 1, 1<<31-1))
			a.deliver(&frames.RequestN{StreamID: id, N: m})
			fs := b.take()
			sv.Assert(len(fs) == 1, "more")
			f, ok := fs[0].(*frames.RequestN)
			sv.Assert(ok && f.StreamID == r.StreamID && f.N == m, "more")
			sv.Reach("more")
		case 4:
			a.deliver(&frames.Cancel{StreamID: id})
			fs := b.take()
			n := 0
			for _, f := range fs {
				if f, ok := f.(*frames.Cancel); ok && f.StreamID == r.StreamID {
					n++
				}
			}
			sv.Assert(n == 1, "cancel")
			sv.Reach("cancel")
			cancelled = true
		case 5, 6:
			if inEnded {
				continue
			}
			p := pay("v")
			f := &frames.Payload{StreamID: id, Next: do == 5, Complete: do == 6}
			if f.Next {
				f.Data, f.Metadata = p.Data(), p.Metadata()
			}
			a.deliver(f)
			fs := b.take()
			sv.Assert(len(fs) == 1, "input")
			isPayload(fs[0], r.StreamID, do == 5, do == 6, p, "input")
			inEnded = do == 6
			sv.Reach("input")
		case 7:
			if inEnded {
				continue
			}
			a.deliver(&frames.Error{StreamID: id, Data: "i"})
			fs := b.take()
			sv.Assert(len(fs) >= 1, "input-failure")
			isError(fs[0], r.StreamID, "i", "input-failure")
			return
		case 8:
			if inEnded {
				continue
			}
			m := uint32(sv.IntRange("input", 1, 1<<31-1))
			b.deliver(&frames.RequestN{StreamID: r.StreamID, N: m})
			fs := a.take()
			sv.Assert(len(fs) == 1, "input-demand")
			f, ok := fs[0].(*frames.RequestN)
			sv.Assert(ok && f.StreamID == id && f.N == m, "input-demand")
			sv.Reach("input-demand")
		}
		if cancelled {
			break
		}
		sv.Assert(len(a.take()) == 0 && len(b.take()) == 0, "quiet")
	}
	if cancelled && kind == rs {
		sv.Assert(sv.Quiesce() == w.idle, "blocked")
	}
}
