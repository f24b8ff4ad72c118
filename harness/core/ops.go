// Package core states the properties of operation tables, handler registration, port messages, instance
// handles, the stream lookup and the unbounded buffer.
package core

import (
	"context"

	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

func drawOp(max int) operations.Operation {
	return operations.Operation{
		Index:     sv.U32("index"),
		Type:      operations.RequestType(sv.U8("type")),
		Direction: operations.Direction(sv.U8("dir")),
		Namespace: sv.String("ns", max),
		Operation: sv.String("op", max),
	}
}

func sameOp(a, b operations.Operation, label string) {
	sv.Assert(a.Index == b.Index, label+"-index")
	sv.Assert(a.Type == b.Type, label+"-type")
	sv.Assert(a.Direction == b.Direction, label+"-direction")
	sv.SameString(a.Namespace, b.Namespace, label+"-namespace")
	sv.SameString(a.Operation, b.Operation, label+"-name")
}

// Table serialises a table and parses it back.
//
//sv:harness prop=C20
//sv:bound 0 to 3 operations (5 in the thorough tier), any index, type and direction byte, names up to 300 bytes; one operation with names up to 65535 bytes
func Table() {
	max := 4
	if sv.Deep() {
		max = 6
	}
	n := sv.Choose("n", max)
	names := 300
	if n == 1 {
		names = 65535
	}
	t := make(operations.Table, 0, n)
	for i := 0; i < n; i++ {
		t = append(t, drawOp(names))
	}
	b := t.ToBytes()
	// the documented layout
	sv.Assert(len(b) >= 10, "short")
	sv.SameBytes(b[:10], []byte{0, 'w', 'r', 's', 0, 1, 0, 0, 0, byte(n)}, "preamble")
	got, err := operations.FromBytes(b)
	sv.Assert(err == nil, "refused")
	sv.Assert(len(got) == n, "count")
	for i := range t {
		sameOp(got[i], t[i], "op")
	}
	sv.Observe("len", uint64(len(b)))
	sv.Reach("done")
}

func u16(b []byte) int { return int(b[0])<<8 | int(b[1]) }

// field appends a length-prefixed field.
func field(b []byte, f []byte) []byte {
	b = append(b, byte(len(f)>>8), byte(len(f)))
	return append(b, f...)
}

// TableForms parses tables written by another implementation.
//
//sv:harness prop=C21
//sv:bound 1 or 2 operations, names up to 20 bytes, reserved bytes up to 65535; whole or cut at any byte
func TableForms() {
	n := 1 + sv.Choose("n", 2)
	b := []byte{0, 'w', 'r', 's', 0, 1, 0, 0, 0, byte(n)}
	var want []operations.Operation
	for i := 0; i < n; i++ {
		o := drawOp(20)
		want = append(want, o)
		b = append(b, byte(o.Type), byte(o.Direction), byte(o.Index>>24), byte(o.Index>>16), byte(o.Index>>8), byte(o.Index))
		b = field(b, []byte(o.Namespace))
		b = field(b, []byte(o.Operation))
		max := 65535
		if n > 1 {
			max = 300
		}
		b = field(b, sv.Bytes("reserved", max))
	}
	if sv.Bool("whole") {
		got, err := operations.FromBytes(b)
		sv.Assert(err == nil && len(got) == n, "refused")
		for i := range want {
			sameOp(got[i], want[i], "op")
		}
		sv.Reach("whole")
		return
	}
	cut := sv.IntRange("cut", 0, 70000)
	sv.Assume(cut < len(b))
	_, err := operations.FromBytes(b[:cut])
	sv.Assert(err != nil, "cut-accepted")
	sv.Reach("cut")
}

// TableBytes parses arbitrary bytes.
//
//sv:harness prop=C21
//sv:bound every input of up to 60 bytes (90 in the thorough tier); allocation below 8 KiB
func TableBytes() {
	max := 60
	if sv.Deep() {
		max = 90
	}
	b := sv.Bytes("b", max)
	sv.AllocLimit(1 << 13)
	t, err := operations.FromBytes(b)
	sv.AllocLimit(0)
	if err != nil {
		sv.Reach("err")
		return
	}
	sv.Assert(len(b) >= 10, "short-accepted")
	sv.SameBytes(b[:6], []byte{0, 'w', 'r', 's', 0, 1}, "preamble-accepted")
	sv.Assert(uint64(len(t)) == uint64(b[6])<<24|uint64(b[7])<<16|uint64(b[8])<<8|uint64(b[9]), "count")
	at := 10
	for _, o := range t {
		sv.Assert(len(b)-at >= 12, "past-end")
		sv.Assert(byte(o.Type) == b[at] && byte(o.Direction) == b[at+1], "bytes")
		sv.Assert(uint64(o.Index) == uint64(b[at+2])<<24|uint64(b[at+3])<<16|uint64(b[at+4])<<8|uint64(b[at+5]), "index")
		at += 6
		l := u16(b[at:])
		at += 2
		sv.Assert(len(o.Namespace) == l && len(b)-at >= l+2, "namespace-len")
		sv.SameString(o.Namespace, string(b[at:at+l]), "namespace")
		at += l
		l = u16(b[at:])
		at += 2
		sv.Assert(len(o.Operation) == l && len(b)-at >= l+2, "name-len")
		sv.SameString(o.Operation, string(b[at:at+l]), "name")
		at += l
		l = u16(b[at:])
		at += 2
		sv.Assert(len(b)-at >= l, "reserved-len")
		at += l
	}
	sv.Reach("ok")
}

// TableClaims parses tables that claim more operations than they hold.
//
//sv:harness prop=C21
//sv:bound every 32-bit count followed by up to 2 operations
func TableClaims() {
	n := sv.U32("n")
	k := sv.Choose("k", 3)
	b := []byte{0, 'w', 'r', 's', 0, 1, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
	b = append(b, make([]byte, 12*k)...)
	sv.AllocLimit(1 << 13)
	t, err := operations.FromBytes(b)
	sv.AllocLimit(0)
	sv.Assert((err == nil) == (int64(n) <= int64(k)), "count")
	if err == nil {
		sv.Assert(len(t) == int(n), "len")
	}
	sv.Reach("done")
}

type reg struct {
	kind int
	imp  bool
	name string
	ns   string
}

var nss = []string{"a", "b", "a"}
var names = []string{"x", "x", "y"}

// Registry exports and imports operations in any order.
//
//sv:harness prop=C22 time=120 dtime=600
//sv:bound 3 registrations (4 in the thorough tier) of any kind (the quick tier's last one of the same kind as the first) and direction, over 3 qualified names of which the first registration has the first, then every lookup
func Registry() {
	n := 3
	if sv.Deep() {
		n = 4
	}
	var exports, imports [4][]reg
	calls := map[int]int{}
	seq, first := 0, 0
	for i := 0; i < n; i++ {
		k, q := first, 0
		if i < 2 || sv.Deep() {
			k = sv.Choose("kind", 4)
		}
		if i > 0 {
			q = sv.Choose("name", 3)
		} else {
			first = k
		}
		ns, name := nss[q], names[q]
		if sv.Bool("import") {
			want := -1
			for j, r := range imports[k] {
				if r.ns == ns && r.name == name {
					want = j
				}
			}
			if want < 0 {
				want = len(imports[k])
				imports[k] = append(imports[k], reg{kind: k, ns: ns, name: name})
			}
			var got uint32
			switch k {
			case 0:
				got = invoke.ImportRequestResponse(ns, name)
			case 1:
				got = invoke.ImportFireAndForget(ns, name)
			case 2:
				got = invoke.ImportRequestStream(ns, name)
			case 3:
				got = invoke.ImportRequestChannel(ns, name)
			}
			sv.Assert(got == uint32(want), "import-index")
			continue
		}
		id := seq
		seq++
		exports[k] = append(exports[k], reg{kind: id, ns: ns, name: name})
		switch k {
		case 0:
			invoke.ExportRequestResponse(ns, name, func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
				calls[id]++
				return nil
			})
		case 1:
			invoke.ExportFireAndForget(ns, name, func(context.Context, payload.Payload) { calls[id]++ })
		case 2:
			invoke.ExportRequestStream(ns, name, func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
				calls[id]++
				return nil
			})
		case 3:
			invoke.ExportRequestChannel(ns, name, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				calls[id]++
				return nil
			})
		}
	}

	// any lookup
	k := sv.Choose("look", 4)
	at := sv.U32("at")
	found := false
	ctx := context.Background()
	switch k {
	case 0:
		if h := invoke.GetRequestResponseHandler(at); h != nil {
			found = true
			h(ctx, nil)
		}
	case 1:
		if h := invoke.GetFireAndForgetHandler(at); h != nil {
			found = true
			h(ctx, nil)
		}
	case 2:
		if h := invoke.GetRequestStreamHandler(at); h != nil {
			found = true
			h(ctx, nil)
		}
	case 3:
		if h := invoke.GetRequestChannelHandler(at); h != nil {
			found = true
			h(ctx, nil, nil)
		}
	}
	sv.Assert(found == (int64(at) < int64(len(exports[k]))), "lookup")
	if found {
		sv.Assert(calls[exports[k][at].kind] == 1 && len(calls) == 1, "wrong-handler")
		sv.Reach("called")
	}

	// the published table lists each registration once
	sv.AllocLimit(1 << 16)
	t := invoke.GetOperationsTable()
	sv.AllocLimit(0)
	total := 0
	for k := 0; k < 4; k++ {
		total += len(exports[k]) + len(imports[k])
		for d, list := range [][]reg{exports[k], imports[k]} {
			for i, r := range list {
				hits := 0
				for _, o := range t {
					if o.Type == operations.RequestType(k+1) && o.Direction == operations.Direction(d+1) && o.Index == uint32(i) {
						hits++
						sv.Assert(o.Namespace == r.ns && o.Operation == r.name, "table-name")
					}
				}
				sv.Assert(hits == 1, "table-entry")
			}
		}
	}
	sv.Assert(len(t) == total, "table-size")
	sv.Reach("done")
}

// RegistryNames imports operations whose names look alike.
//
//sv:harness prop=C22 time=60
//sv:bound two imports of the same or different kinds with any namespaces and names of up to 2 bytes, then each import once more
func RegistryNames() {
	imp := func(k int, ns, op string) uint32 {
		switch k {
		case 0:
			return invoke.ImportRequestResponse(ns, op)
		case 1:
			return invoke.ImportFireAndForget(ns, op)
		case 2:
			return invoke.ImportRequestStream(ns, op)
		}
		return invoke.ImportRequestChannel(ns, op)
	}
	var ns, op [2]string
	var at [2]uint32
	k := [2]int{sv.Choose("kind", 4), 0}
	k[1] = k[0]
	if sv.Bool("other") {
		k[1] = (k[0] + 1) % 4
	}
	for i := range ns {
		ns[i], op[i] = sv.String("ns", 2), sv.String("op", 2)
		at[i] = imp(k[i], ns[i], op[i])
	}
	same := sv.And(k[0] == k[1], sv.And(ns[0] == ns[1], op[0] == op[1]))
	if same {
		sv.Assert(at[0] == 0 && at[1] == 0, "again")
		sv.Reach("same")
	} else if k[0] == k[1] {
		sv.Assert(at[0] == 0 && at[1] == 1, "different")
		sv.Reach("different")
	} else {
		sv.Assert(at[0] == 0 && at[1] == 0, "kinds")
	}
	for i := range ns {
		sv.Assert(imp(k[i], ns[i], op[i]) == at[i], "stable")
	}
	sv.AllocLimit(1 << 16)
	t := invoke.GetOperationsTable()
	sv.AllocLimit(0)
	sv.Assert(same == (len(t) == 1), "table-size")
	for i := range ns {
		hits := 0
		for _, o := range t {
			if o.Type == operations.RequestType(k[i]+1) && o.Index == at[i] {
				sv.Assert(o.Direction == operations.Import && o.Namespace == ns[i] && o.Operation == op[i], "table-name")
				hits++
			}
		}
		sv.Assert(hits == 1, "table-entry")
	}
}

// Ports round-trips port messages.
//
//sv:harness prop=C23
//sv:bound names up to 65535 bytes, data up to 70000 bytes, all four flag combinations
func Ports() {
	p := invoke.PortIO{
		Port:     sv.String("port", 65535),
		Data:     sv.Bytes("data", 70000),
		Complete: sv.Bool("complete"),
		Next:     sv.Bool("next"),
	}
	b := p.Encode()
	var got invoke.PortIO
	err := got.Decode(b)
	sv.Assert(err == nil, "refused")
	sv.Assert(got.Complete == p.Complete, "complete")
	sv.Assert(got.Next == p.Next, "next")
	sv.SameString(got.Port, p.Port, "port")
	sv.SameBytes(got.Data, p.Data, "data")
	sv.Observe("len", uint64(len(b)))
	sv.Reach("done")
}

// PortBytes decodes arbitrary bytes.
//
//sv:harness prop=C23
//sv:bound every input of up to 70000 bytes
func PortBytes() {
	b := sv.Bytes("b", 70000)
	var got invoke.PortIO
	err := got.Decode(b)
	ok := len(b) >= 3 && len(b)-3 >= u16(b[1:])
	sv.Assert((err == nil) == ok, "accept")
	if err != nil {
		sv.Reach("err")
		return
	}
	l := u16(b[1:])
	sv.SameString(got.Port, string(b[3:3+l]), "port")
	sv.SameBytes(got.Data, b[3+l:], "data")
	sv.Assert(got.Next == (b[0]&1 != 0), "next")
	sv.Assert(got.Complete == (b[0]&2 != 0), "complete")
	sv.Reach("ok")
}

// PortFlags checks the flag sets.
//
//sv:harness prop=C23
//sv:bound every flag byte
func PortFlags() {
	f := invoke.Flags(sv.U8("f"))
	sv.Assert(invoke.FlagNext != invoke.FlagComplete, "same")
	n, c := f.Check(invoke.FlagNext), f.Check(invoke.FlagComplete)
	sv.Assert(n == (f&invoke.FlagNext != 0) && c == (f&invoke.FlagComplete != 0), "check")
	want := ""
	switch {
	case n && c:
		want = "N|CL"
	case n:
		want = "N"
	case c:
		want = "CL"
	}
	sv.Assert(f.String() == want, "string")
	sv.Reach("done")
}
