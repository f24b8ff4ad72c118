package conn

import (
	"context"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
)

// MeshAtOnce loads modules while calls are made.
//
//sv:harness prop=C82 sched=1 g=64 preempt=1 dpreempt=2 time=90 dtime=600
//sv:bound a call (a simple request; of any kind in the thorough tier), by name or through an import, to a module that is being loaded for the first time or again, or while the module that imports from it or another one with a pending import is being loaded; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points; data races included
func MeshAtOnce() {
	sv.Races()
	sv.Preempt(-1)
	w := newWorld()
	kind := sv.Choose("kind", steps(1, 4))
	b := w.module("b", op(kind, operations.Export, 1))
	a := w.module("a", op(kind, operations.Import, 5))
	byImport := sv.Bool("import")
	what := sv.Choose("load", 3)
	first := what == 0
	if !first {
		w.load("b")
	}
	if byImport {
		w.load("a")
	}
	after := b
	name := "b"
	switch what {
	case 1:
		after = w.module("b", op(kind, operations.Export, 2))
	case 2:
		name = "c"
		w.module("c", op(kind, operations.Import, 3), operations.Operation{Index: 4, Type: types4(kind), Direction: operations.Import, Namespace: "n", Operation: "p"})
	}
	sv.Quiesce()
	sv.Preempt(steps(1, 2))
	done := make(chan struct{})
	go func() {
		i, err := w.LoadModule(context.Background(), name)
		sv.Assert(err == nil && i != nil, "loaded")
		w.files[name].i = i
		close(done)
	}()
	id := a.peerID(1)
	if byImport {
		a.deliver(request(kind, id, index(5, 0, 0, 0, 0), []byte{1}, 3))
	} else {
		p := payload.New([]byte{1}, index(9, 0, 0, 0, 0))
		c := byName{w: w, ns: "n", op: "o"}
		ctx := context.Background()
		switch kind {
		case rr:
			if m := c.RequestResponse(ctx, p); m != nil {
				m.Async()
			}
		case fnf:
			c.FireAndForget(ctx, p)
		case rs:
			if f := c.RequestStream(ctx, p); f != nil {
				f.Subscribe(flux.Subscribe[payload.Payload]{})
			}
		case rc:
			if f := c.RequestChannel(ctx, p, flux.FromSlice([]payload.Payload{})); f != nil {
				f.Subscribe(flux.Subscribe[payload.Payload]{})
			}
		}
	}
	<-done
	sv.Preempt(-1)
	reached := 0
	ms := []*member{b}
	if after != b {
		ms = append(ms, after)
	}
	for _, m := range ms {
		for _, f := range m.take() {
			r, ok := f.(*frames.RequestPayload)
			if !ok {
				sv.Assert(kind == rc, "frame")
				continue
			}
			reached++
			i := uint32(1)
			if m == after && what == 1 {
				i = 2
			}
			sv.Assert(r.FrameType == types[kind], "kind")
			sv.SameBytes(r.Metadata, index(i, 0, 0, 0, 0), "metadata")
		}
	}
	refused := 0
	for _, f := range a.take() {
		isError(f, id, "not_found", "refused")
		refused++
	}
	if first {
		sv.Assert(reached <= 1, "reached")
		sv.Assert(!byImport || reached+refused == 1, "reached")
		sv.Reach("first")
	} else {
		sv.Assert(reached == 1 && refused == 0, "reached")
		sv.Reach("again")
	}
	// afterwards everything is linked
	if byImport {
		w.asking(a, after, kind, map[bool]uint32{true: 2, false: 1}[what == 1])
	}
	w.named(after, kind, map[bool]uint32{true: 2, false: 1}[what == 1])
	if what == 2 {
		c := w.files["c"]
		c.deliver(request(kind, id, index(3, 0, 0, 0, 0), nil, 3))
		b.got("linked")
	}
}
