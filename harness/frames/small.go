package frames

import (
	"bytes"
	"errors"

	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/internal/u24"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
)

var errBroken = errors.New("broken")

// broken is a writer that accepts some writes and then fails.
type broken struct {
	left int // writes
	n    int // bytes accepted
}

func (w *broken) Write(b []byte) (int, error) {
	if w.left > 0 {
		w.left--
		w.n += len(b)
		return len(b), nil
	}
	return 0, errBroken
}

func panics(fn func()) (p bool) {
	defer func() { p = recover() != nil }()
	fn()
	return
}

// U24 checks the 24-bit codec on every 32-bit value.
//
//sv:harness prop=C06
//sv:bound every uint32
func U24() {
	v := sv.U32("v")
	n, err := u24.NewUint24(v)
	var w bytes.Buffer
	werr := u24.WriteUint24(&w, v)
	if v > 0xffffff {
		sv.Assert(err != nil, "range-unreported")
		sv.Assert(u24.IsExceedMaximumUint24Error(err), "range-kind")
		sv.Assert(!u24.IsNegativeUint24Error(err), "range-negative")
		sv.Assert(werr != nil, "write-range-unreported")
		sv.Assert(w.Len() == 0, "write-oversized")
		sv.Assert(panics(func() { u24.MustNewUint24(v) }), "must-unreported")
		sv.Reach("range")
		return
	}
	sv.Assert(err == nil, "err")
	sv.Assert(n.AsInt() == int(v), "asint")
	b := n.Bytes()
	sv.Assert(len(b) == 3 && b[0] == byte(v>>16) && b[1] == byte(v>>8) && b[2] == byte(v), "bytes")
	sv.Assert(u24.NewUint24Bytes(b).AsInt() == int(v), "from-bytes")
	sv.Assert(u24.ReadUint24ToInt(b) == int(v), "read")
	sv.Assert(u24.MustNewUint24(v).AsInt() == int(v), "must")
	sv.Assert(werr == nil, "write-err")
	sv.SameBytes(w.Bytes(), b, "write")
	var w2 bytes.Buffer
	k, err := n.WriteTo(&w2)
	sv.Assert(k == 3 && err == nil, "writeto")
	sv.SameBytes(w2.Bytes(), b, "writeto-bytes")
	sv.Assert(u24.WriteUint24(&broken{}, v) == errBroken, "write-failure")
	_, err = n.WriteTo(&broken{})
	sv.Assert(errors.Is(err, errBroken), "writeto-failure")
	sv.Reach("done")
}

// U24Bytes checks the readers on every 3-byte form.
//
//sv:harness prop=C06
//sv:bound every 3-byte value
func U24Bytes() {
	b := sv.BytesN("b", 5)
	want := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
	sv.Assert(u24.NewUint24Bytes(b).AsInt() == want, "from-bytes")
	sv.Assert(u24.ReadUint24ToInt(b) == want, "read")
	n, err := u24.NewUint24(uint32(want))
	sv.Assert(err == nil, "err")
	sv.SameBytes(n.Bytes(), b[:3], "back")
	sv.Reach("done")
}

const lap = 1 << 30

// gen returns a client or server generator at an arbitrary point of its history, and its position.
func gen(client bool, seed uint64) (socket.StreamID, func() uint64) {
	if client {
		c := socket.ClientStreamIDs(seed)
		return &c, func() uint64 { return uint64(c) }
	}
	s := socket.ServerStreamIDs(seed)
	return &s, func() uint64 { return uint64(s) }
}

// StreamIDs relates any two ids of one generator.
//
//sv:harness prop=C07
//sv:bound both roles, any generator position below 2^62, any two positions
func StreamIDs() {
	client := sv.Bool("client")
	i, j := sv.U64("i"), sv.U64("j")
	sv.Assume(i < 1<<62 && j < 1<<62)
	g, pos := gen(client, i)
	a, firstA := g.Next()
	i = pos()
	sv.Assume(i <= j) // a later call of the same generator
	g, pos = gen(client, j)
	b, _ := g.Next()
	j = pos()
	sv.Assert(i < j, "advance")
	sv.Assert(a != 0, "zero")
	sv.Assert(a <= mask31, "range")
	sv.Assert(a&1 == uint32(b2u(client)), "parity")
	sv.Observe("a", uint64(a))
	// a lap is the 2^30 positions of a role's id space
	if j-i < lap {
		sv.Assert(a != b, "repeat")
	}
	// the first lap ends with position 2^30
	sv.Assert(firstA == (i <= lap), "first-lap")
	sv.Reach("done")
}

// StreamIDsStart checks the beginning of both sequences.
//
//sv:harness prop=C07
//sv:bound the first 4 ids
func StreamIDsStart() {
	client := sv.Bool("client")
	g, _ := gen(client, 0)
	var prev uint32
	for k := 0; k < 4; k++ {
		id, first := g.Next()
		sv.Assert(first, "first")
		sv.Assert(id > prev, "order")
		prev = id
	}
	sv.Reach("done")
}

// StreamIDsConcurrent lets goroutines share one generator.
//
//sv:harness prop=C07 sched=1 preempt=1 dpreempt=2
//sv:bound 3 goroutines, 1 id each, any starting position below 2^62, interleavings with at most 1 (deep: 2) preemptions
func StreamIDsConcurrent() {
	sv.Races()
	client := sv.Bool("client")
	g, _ := gen(client, sv.U64("i")&(1<<62-1))
	var ids [3]uint32
	done := make(chan int, 3)
	for k := 0; k < 3; k++ {
		k := k
		go func() {
			sv.Yield()
			ids[k], _ = g.Next()
			done <- k
		}()
	}
	for k := 0; k < 3; k++ {
		<-done
	}
	sv.Assert(ids[0] != 0 && ids[1] != 0 && ids[2] != 0, "zero")
	sv.Assert(ids[0] != ids[1] && ids[1] != ids[2] && ids[0] != ids[2], "repeat")
	sv.Reach("done")
}
