package conn

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// asking has a make a request through its import, which must reach b.
func (w *world) asking(a, b *member, kind int, i uint32) (id, at uint32) {
	a.next++
	id = a.peerID(a.next)
	a.deliver(request(kind, id, index(5, 0, 0, 0, 0, 7), []byte{1}, 3))
	r := b.got("reached")
	sv.Assert(r.FrameType == types[kind], "kind")
	sv.SameBytes(r.Metadata, index(i, 0, 0, 0, 0, 7), "metadata")
	return id, r.StreamID
}

// answers has b answer the request.
func (w *world) answers(a, b *member, kind int, id, at uint32) {
	if kind == fnf {
		return
	}
	if kind == rc {
		a.deliver(&frames.Payload{StreamID: id, Complete: true})
		fs := b.take()
		sv.Assert(len(fs) == 1, "input")
		isPayload(fs[0], at, false, true, nil, "input")
	}
	p := pay("answer")
	b.deliver(&frames.Payload{StreamID: at, Next: true, Complete: true, Data: p.Data(), Metadata: p.Metadata()})
	got, end := 0, 0
	for _, f := range a.take() {
		f, ok := f.(*frames.Payload)
		sv.Assert(ok && f.StreamID == id && end == 0, "answer")
		if f.Next {
			got++
			sv.SameBytes(f.Data, p.Data(), "answer-data")
		}
		if f.Complete {
			end++
		}
	}
	sv.Assert(got == 1 && end == 1, "answered")
}

// refuses checks that the instance is closed.
func (m *member) refuses() {
	ok, fail := 0, 0
	m.i.RequestResponse(context.Background(), payload.New([]byte{1}, opMetadata(0))).Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(payload.Payload) { ok++ },
		OnError:   func(error) { fail++ },
	})
	sv.Assert(len(m.take()) == 0 && ok == 0 && fail == 1, "closed")
}

// named calls by name, which must reach b.
func (w *world) named(b *member, kind int, i uint32) {
	p := payload.New([]byte{2}, index(9, 1, 2, 3, 4))
	c := byName{w: w, ns: "n", op: "o"}
	ctx := context.Background()
	switch kind {
	case rr:
		c.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{})
	case fnf:
		c.FireAndForget(ctx, p)
	case rs:
		c.RequestStream(ctx, p).Subscribe(flux.Subscribe[payload.Payload]{})
	case rc:
		c.RequestChannel(ctx, p, flux.FromSlice([]payload.Payload{})).Subscribe(flux.Subscribe[payload.Payload]{})
	}
	var r *frames.RequestPayload
	for _, f := range b.take() {
		if f, ok := f.(*frames.RequestPayload); ok {
			sv.Assert(r == nil, "named")
			r = f
		} else {
			sv.Assert(kind == rc, "named")
		}
	}
	sv.Assert(r != nil, "named")
	sv.Assert(r.FrameType == types[kind], "named-kind")
	sv.SameBytes(r.Metadata, index(i, 1, 2, 3, 4), "named-metadata")
}

// MeshReloads loads modules again.
//
//sv:harness prop=C82 g=64 preempt=0 dpreempt=0 time=60 dtime=600
//sv:bound a module and one that imports an operation of any kind from it, loaded in either order; then twice (3 times in the thorough tier) either is loaded again, with another index, or fails to load because the file cannot be read, compiled or instantiated or lacks a function, while a request is in progress; the delay passing before or after the last answer; then the mesh is closed
func MeshReloads() {
	w := newWorld()
	kind := sv.Choose("kind", 4)
	i := sv.U32("exported")
	b := w.module("b", op(kind, operations.Export, i))
	a := w.module("a", op(kind, operations.Import, 5))
	for _, n := range [][]string{{"a", "b"}, {"b", "a"}}[sv.Choose("order", 2)] {
		w.load(n)
	}
	var old []*member
	for k := steps(2, 3); k > 0; k-- {
		id, at := w.asking(a, b, kind, i)
		from, to := a, b
		switch sv.Choose("do", 4) {
		case 0:
			old = append(old, b)
			i = sv.U32("exported")
			b = w.module("b", op(kind, operations.Export, i))
			w.load("b")
			sv.Reach("exporter")
		case 1:
			old = append(old, a)
			a = w.module("a", op(kind, operations.Import, 5))
			w.load("a")
			if k == 1 && sv.Bool("passed") {
				// it is closed once the request has been answered
				close(w.tick)
				w.tick = nil
				sv.Quiesce()
				sv.Reach("late")
			}
		case 2:
			w.breaks("b", b)
		case 3:
			w.breaks("a", a)
		}
		w.answers(from, to, kind, id, at)
		w.works(a, b, kind, i)
	}
	if w.tick != nil {
		close(w.tick)
	}
	w.works(a, b, kind, i)
	for _, m := range old {
		m.refuses()
	}
	// close with a request in progress
	_, at := w.asking(a, b, kind, i)
	closed := false
	go func() {
		w.Close()
		closed = true
	}()
	sv.Quiesce()
	ends := 0
	if !closed {
		b.deliver(&frames.Payload{StreamID: at, Next: true, Complete: true})
		sv.Reach("waits")
	}
	sv.Assert(sv.Quiesce() == 0 && closed, "blocked")
	for _, f := range a.take() {
		switch f := f.(type) {
		case *frames.Error:
			ends++
		case *frames.Payload:
			if f.Complete {
				ends++
			}
		}
	}
	sv.Assert(kind == fnf || ends == 1, "answered")
	a.refuses()
	b.refuses()
	sv.Reach("closed")
}

// works checks that requests and calls get through.
func (w *world) works(a, b *member, kind int, i uint32) {
	id, at := w.asking(a, b, kind, i)
	w.answers(a, b, kind, id, at)
	w.named(b, kind, i)
}

// breaks makes the file unusable and tries to load it.
func (w *world) breaks(name string, m *member) {
	bad := w.module(name, m.table...)
	switch sv.Choose("break", 4) {
	case 0:
		delete(w.files, name)
	case 1:
		bad.src = []byte{}
	case 2:
		bad.m.fails = true
	case 3:
		n := []string{"__wasmrs_init", "__wasmrs_op_list_request", "__wasmrs_send"}[sv.Choose("missing", 3)]
		delete(bad.m.funcs, n)
	}
	got, err := w.LoadModule(context.Background(), name)
	sv.Assert(err != nil && got == nil, "reported")
	sv.Reach("reported")
	w.files[name] = m
}
