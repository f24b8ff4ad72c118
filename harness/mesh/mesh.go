package conn

import (
	"context"
	"errors"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
)

// The mesh loads stand-ins for guests from files the harness provides.

// member is a module in a file.
type member struct {
	*hostNode
	table operations.Table
	src   []byte
	next  uint32
}

// world is the mesh and the files there are.
type world struct {
	*mesh.Mesh
	files map[string]*member
	tick  chan struct{} // closed when the time has passed
	idle  int
}

var errNoFile = errors.New("no file")

func newWorld() *world {
	w := &world{Mesh: mesh.New(), files: map[string]*member{}, tick: make(chan struct{})}
	mesh.VerifRead = func(name string) ([]byte, error) {
		m := w.files[name]
		if m == nil {
			return nil, errNoFile
		}
		return m.src, nil
	}
	mesh.VerifSleep = func() { <-w.tick }
	runtimeOf(func(src []byte) *guestModule {
		for _, m := range w.files {
			if len(src) > 0 && &m.src[0] == &src[0] {
				return m.m
			}
		}
		return nil
	})
	return w
}

// module puts a guest with the given operations into a file.
func (w *world) module(name string, t ...operations.Operation) *member {
	m := &member{hostNode: newHost(96), table: t, src: []byte(name)}
	m.m.ops = func() {
		raw := m.table.ToBytes()
		copy(m.m.mem.b[m.m.out:], raw)
		m.m.call("__op_list", uint64(m.m.out), uint64(len(raw)))
	}
	w.files[name] = m
	return m
}

// load loads the module.
func (w *world) load(name string) *host.Instance {
	i, err := w.LoadModule(context.Background(), name)
	sv.Assert(err == nil && i != nil, "loaded")
	w.files[name].i, w.files[name].caller = i, i
	w.idle = sv.Quiesce()
	return i
}

func types4(kind int) operations.RequestType { return operations.RequestType(kind + 1) }

// got checks that the member has received one request, and returns it.
func (m *member) got(label string) *frames.RequestPayload {
	fs := m.take()
	sv.Assert(len(fs) == 1, label)
	r, ok := fs[0].(*frames.RequestPayload)
	sv.Assert(ok, label)
	return r
}

// MeshLinks loads modules that import from one another.
//
//sv:harness prop=C80 g=64 preempt=0 dpreempt=0 time=60 dtime=600
//sv:bound 3 modules with up to 2, 1 and 1 operations (2, 2 and 1 in the thorough tier), each exported or imported under one of two names (any of one letter in the thorough tier) in one of two namespaces and with one of two types (requests for one response, in the last two modules also for none; any two in the thorough tier), with any indices of exports; every import is called once after the first and the last module are loaded (all in the thorough tier)
func MeshLinks() {
	w := newWorld()
	var ms []*member
	kind := sv.Choose("kind", steps(1, 4))
	for k, n := range []int{2, steps(1, 2), 1} {
		var t operations.Table
		for i := 0; i < n; i++ {
			o := operations.Operation{
				Type:      operations.RequestType(sv.Ite(sv.Bool("other"), uint64(types4((kind+1)&3)), uint64(types4(kind)))),
				Namespace: sv.StringN("ns", 1),
				Operation: sv.StringN("op", 1),
				Direction: operations.Export,
			}
			if !sv.Deep() {
				few(o.Namespace, k+i == 0)
				few(o.Operation, k+i == 0)
				sv.Assume(sv.Or(k > 0, o.Type == types4(kind)))
			}
			if sv.Bool("import") {
				o.Direction = operations.Import
				o.Index = uint32(i) << (30 * uint(k%2)) // some of them large
			} else {
				o.Index = sv.U32("index")
				for _, p := range t {
					if p.Direction == operations.Export {
						sv.Assume(!same(p, o))
					}
				}
			}
			t = append(t, o)
		}
		name := string(rune('a' + k))
		ms = append(ms, w.module(name, t...))
	}
	for k, m := range ms {
		w.load(m.name())
		linked := ms[:k+1]
		if k != 1 || sv.Deep() {
			for _, m := range linked {
				for _, o := range m.table {
					if o.Direction == operations.Import {
						w.imported(m, o, linked)
					}
				}
			}
		}
	}
	sv.Assert(sv.Quiesce() == w.idle, "blocked")
}

// few restricts a name to the first one or two letters.
func few(s string, one bool) {
	sv.Assume(sv.Or(s[0] == 'a', sv.And(!one, s[0] == 'b')))
}

func (m *member) name() string { return string(m.src) }

// same tells whether two operations are the same one.
func same(a, b operations.Operation) bool {
	return a.Type == b.Type && a.Namespace == b.Namespace && a.Operation == b.Operation
}

// imported calls an operation that m imports.
func (w *world) imported(m *member, o operations.Operation, ms []*member) {
	kind := 0
	for o.Type != types4(kind) {
		kind++
	}
	m.next++
	id := m.peerID(m.next)
	data := []byte{byte(m.next)}
	m.deliver(request(kind, id, index(o.Index, 0, 0, 0, 0, 9), data, 1))
	sv.Quiesce()
	found := false
	for _, to := range ms {
		for _, e := range to.table {
			if e.Direction == operations.Export && same(e, o) {
				found = true
			}
		}
	}
	if !found {
		for _, x := range ms {
			fs := x.take()
			if x == m {
				sv.Assert(len(fs) == 1, "refused")
				isError(fs[0], id, "not_found", "refused")
			} else {
				sv.Assert(len(fs) == 0, "nothing")
			}
		}
		sv.Reach("pending")
		return
	}
	hits := 0
	for _, to := range ms {
		for _, f := range to.take() {
			hits++
			r, ok := f.(*frames.RequestPayload)
			sv.Assert(ok && r.FrameType == types[kind], "kind")
			right := false
			for _, e := range to.table {
				right = right || e.Direction == operations.Export && same(e, o) && string(index(e.Index, 0, 0, 0, 0, 9)) == string(r.Metadata)
			}
			sv.Assert(right, "connected")
			sv.SameBytes(r.Data, data, "data")
		}
	}
	sv.Assert(hits == 1, "connected")
	sv.Reach("connected")
}
