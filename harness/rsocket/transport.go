package rsocket

import (
	"context"
	"io"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// sink handles frames.
type sink struct {
	got  []frames.Frame
	send func(frames.Frame) error
	fail int // number of frames handled before it fails
	err  error
}

func (s *sink) SetFrameSender(f func(frames.Frame) error) { s.send = f }

func (s *sink) HandleFrame(f frames.Frame) error {
	s.got = append(s.got, f)
	if s.err != nil && len(s.got) == s.fail+1 {
		return s.err
	}
	return nil
}

// SendAtOnce sends from two goroutines.
//
//sv:harness prop=C52 sched=1 preempt=2 dpreempt=3 time=60 dtime=400
//sv:bound two senders, one of two frames and one of one, each small or (one of them) larger than the buffer of the connection, flushed or not; then a flush; interleavings with up to 2 preemptions (3 in the thorough tier) at synchronisation points; data races included
func SendAtOnce() {
	sv.Races()
	out := &socket{}
	t := rsocket.NewTransport(rsocket.NewTCPConn(out), &sink{}, true)
	big := sv.Choose("big", 3)
	var fs [3]*frames.Payload
	for i := range fs {
		n := 1
		if i == big {
			n = 9000
		}
		fs[i] = &frames.Payload{StreamID: uint32(i + 1), Next: true, Data: make([]byte, n)}
		fs[i].Data[n-1] = sv.U8("last")
	}
	flush := sv.Bool("flush")
	done := make(chan struct{})
	go func() {
		sv.Assert(t.Send(fs[0], true) == nil, "send")
		close(done)
	}()
	sv.Assert(t.Send(fs[1], flush) == nil, "send")
	sv.Assert(t.Send(fs[2], true) == nil, "send")
	<-done
	sv.Preempt(0)
	sv.Assert(t.Flush() == nil, "flush")
	r := rsocket.NewTCPConn(&socket{in: &source{b: out.sent(), end: io.EOF}})
	var seen [3]bool
	for i := 0; i < 3; i++ {
		f, err := r.Read()
		sv.Assert(err == nil, "frame")
		k := int(f.GetStreamID()) - 1
		sv.Assert(k >= 0 && k < 3 && !seen[k], "frame-once")
		sameFrame(f, fs[k], "frame")
		seen[k] = true
		sv.Assert(k != 2 || seen[1], "order")
	}
	_, err := r.Read()
	sv.Assert(err == io.EOF, "end")
	sv.Reach("sent")
}

// link is a connection on which frames arrive.
type link struct {
	fs     []frames.Frame
	end    error         // what follows the last frame; nil if nothing does
	read   int           // frames read
	closed chan struct{} // once closed
	closes int
	late   func() // when the last frame has been read
}

func (l *link) Read() (frames.Frame, error) {
	select {
	case <-l.closed:
		return nil, io.EOF
	default:
	}
	if l.read < len(l.fs) {
		l.read++
		return l.fs[l.read-1], nil
	}
	if l.late != nil {
		l.late()
		l.late = nil
	}
	if l.end != nil {
		return nil, l.end
	}
	<-l.closed
	return nil, io.EOF
}

func (l *link) Close() error {
	l.closes++
	if l.closes == 1 {
		close(l.closed)
	}
	return nil
}

func (l *link) SetDeadline(time.Time) error { return nil }
func (l *link) Write(frames.Frame) error    { return nil }
func (l *link) Flush() error                { return nil }

// start runs a transport.
func start(ends []int, most int) {
	l := &link{closed: make(chan struct{})}
	server := sv.Bool("server")
	setup := &frames.Setup{MajorVersion: 0, MinorVersion: 2}
	if sv.Bool("setup") {
		l.fs = append(l.fs, setup)
	}
	for i := sv.Choose("frames", most+1); i > 0; i-- {
		l.fs = append(l.fs, &frames.Cancel{StreamID: uint32(i)})
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	h := &sink{}
	how := ends[sv.Choose("end", len(ends))]
	switch how {
	case 0:
		l.end = io.EOF
	case 1:
		l.end = errNet
	case 2:
		h.err, h.fail = errNet, sv.Choose("fail", 3)
		sv.Assume(h.fail < len(l.fs))
		if sv.Bool("over") {
			l.end = io.EOF
		}
	case 3:
		l.late = cancel
	case 4:
		if sv.Bool("before") {
			cancel()
		} else {
			go cancel()
		}
	}
	t := rsocket.NewTransport(l, h, server)
	ready := false
	go func() {
		t.WaitUntilReady()
		ready = true
	}()
	err := t.Start(ctx)
	n := len(h.got)
	for i, f := range h.got {
		sv.Assert(i < len(l.fs) && f == l.fs[i], "order")
	}
	sv.Assert(l.closes > 0, "closed")
	if server && (len(l.fs) == 0 || l.fs[0] != frames.Frame(setup)) {
		sv.Assert(err != nil, "refused")
		sv.Assert(n == 0, "refused-handled")
		sv.Assert(!ready, "refused-ready")
		sv.Reach("refused")
		return
	}
	sv.Assert(n == l.read, "lost")
	switch how {
	case 0:
		sv.Assert(err == nil && n == len(l.fs), "end")
		sv.Reach("end")
	case 1:
		sv.Assert(err != nil && n == len(l.fs), "broken")
	case 2:
		sv.Assert(n > h.fail, "failed-handled")
		if l.end == nil {
			sv.Assert(err != nil, "failed")
		}
		sv.Reach("failed")
	default:
		sv.Assert(err != nil || l.end != nil, "cancelled")
		sv.Reach("cancelled")
	}
	if how != 4 && !(how == 2 && h.fail == 0) {
		sv.Quiesce()
		sv.Assert(ready, "ready")
		sv.Assert(sv.Quiesce() == 0, "left")
	}
	sv.Assert(len(h.got) == n, "handled-late")
}

// Start dispatches frames until the stream ends.
//
//sv:harness prop=C53 sched=1 preempt=1 dpreempt=2 time=90 dtime=400 paths=600000
//sv:bound a client or server, up to 2 frames (3 in the thorough tier) preceded by a set-up frame or not, followed by the end of the stream or an error; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points
func Start() { start([]int{0, 1}, deep(2, 3)) }

// StartFails has a failing handler.
//
//sv:harness prop=C53 sched=1 preempt=1 dpreempt=2 time=90 dtime=400 paths=600000
//sv:bound a client or server, up to 2 frames preceded by a set-up frame or not, followed by nothing or the end of the stream; a handler failing at any of them; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points
func StartFails() { start([]int{2}, 2) }

// StartCancelled runs until the context ends.
//
//sv:harness prop=C53 sched=1 preempt=1 dpreempt=2 time=90 dtime=400 paths=600000
//sv:bound a client or server, up to 1 frame (2 in the thorough tier) preceded by a set-up frame or not, followed by nothing; the context ending before, concurrently or after the last frame; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points
func StartCancelled() { start([]int{3, 4}, deep(1, 2)) }
