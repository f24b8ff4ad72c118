package rsocket

import (
	"context"
	"errors"
	"io"
	"net"
	"sync"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// peer is what a peer sends before it falls silent or hangs up.
type peer struct {
	socket
	b       []byte
	hangup  bool
	refused bool
	gone    chan struct{} // once the connection is closed
}

func (p *peer) Read(b []byte) (int, error) {
	if len(p.b) > 0 {
		n := copy(b, p.b)
		p.b = p.b[n:]
		return n, nil
	}
	if p.hangup {
		return 0, io.EOF
	}
	<-p.gone
	return 0, errClosed
}

func (p *peer) Close() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.closes++
	if p.closes == 1 {
		close(p.gone)
	}
	return nil
}

func (p *peer) closed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.closes > 0
}

// port is a listener.
type port struct {
	net.Listener
	in   chan net.Conn
	errs chan error
	gone chan struct{}
	end  error // of waiting once it is closed
	mu   sync.Mutex
	n    int // times it was closed
}

func (p *port) Accept() (net.Conn, error) {
	select {
	case <-p.gone:
		return nil, p.end
	default:
	}
	select {
	case c := <-p.in:
		return c, nil
	case err := <-p.errs:
		return nil, err
	case <-p.gone:
		return nil, p.end
	}
}

func (p *port) Close() error {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.n++
	if p.n == 1 {
		close(p.gone)
	}
	return nil
}

func (p *port) closes() int {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.n
}

func newPort() *port {
	return &port{in: make(chan net.Conn, 4), errs: make(chan error, 1), gone: make(chan struct{}), end: errClosed}
}

// newPeer draws a peer; it sets the connection up, announcing an operation of index k, if ok.
func newPeer(k uint32, more bool) (p *peer, ok bool) {
	p = &peer{gone: make(chan struct{})}
	p.hangup = sv.Bool("hangup")
	switch sv.Choose("peer", 4) {
	case 0:
		ok = true
		p.b = wire(encoded(&frames.Setup{MinorVersion: 2, Data: operations.Table{{
			Index: k, Type: operations.FireAndForget, Direction: operations.Export, Namespace: "n", Operation: "o",
		}}.ToBytes()}))
		if more && sv.Bool("more") {
			p.b = append(p.b, wire(encoded(&frames.Cancel{StreamID: 2}))...)
		}
	case 1:
		p.b = wire(encoded(&frames.Cancel{StreamID: 2})) // not a set-up
		p.refused = true
	case 2:
		p.b = []byte{0, 0, 0} // not a frame
		p.refused = true
	case 3: // nothing
	}
	return
}

// server runs a server until it ends.
type server struct {
	rsocket.ServerTransport
	l       *port
	err     error // of listening
	cancel  func()
	mu      sync.Mutex
	callers []invoke.Caller
	up      chan bool
	ended   chan error
}

func newServer() *server {
	s := &server{l: newPort(), up: make(chan bool, 1), ended: make(chan error, 1)}
	s.ServerTransport = rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) {
		if s.err != nil {
			return nil, s.err
		}
		return s.l, nil
	}, nil)
	s.Accept(func(_ context.Context, c invoke.Caller, onClose func(*rsocket.Transport)) {
		s.mu.Lock()
		defer s.mu.Unlock()
		sv.Assert(c != nil && onClose != nil, "caller")
		s.callers = append(s.callers, c)
	})
	return s
}

func (s *server) listen() {
	var ctx context.Context
	ctx, s.cancel = context.WithCancel(context.Background())
	go func() { s.ended <- s.Listen(ctx, s.up) }()
}

// stop ends it in any way.
func (s *server) stop() {
	switch sv.Choose("end", 3) {
	case 0:
		sv.Assert(s.Close() == nil, "close")
	case 1:
		s.cancel()
	case 2:
		s.l.end = io.EOF
		s.l.Close()
	}
}

// over checks that nothing is left.
func (s *server) over() {
	<-s.ended
	sv.Preempt(-1)
	sv.Assert(s.Close() == nil, "close-again")
	sv.Assert(s.l.closes() > 0, "left-listening")
	sv.Assert(sv.Quiesce() == 0, "left")
	s.cancel()
	sv.Assert(sv.Quiesce() == 0, "left-cancelled")
}

// serve runs a server for n peers that connect one after the other.
func serve(n int) {
	s := newServer()
	s.listen()
	sv.Assert(<-s.up, "listening")
	var ps []*peer
	for i := 0; i < n; i++ {
		if n > 1 && sv.Bool("disturbed") {
			s.l.errs <- errNet
			sv.Quiesce()
		}
		k := sv.U32("index")
		p, ok := newPeer(k, n > 1)
		known := len(s.callers)
		s.l.in <- p
		sv.Quiesce()
		sv.Assert(p.closed() == (p.hangup || p.refused), "closed")
		ps = append(ps, p)
		if !ok {
			sv.Assert(len(s.callers) == known, "refused")
			sv.Reach("refused")
			continue
		}
		sv.Assert(len(s.callers) == known+1, "accepted")
		c := s.callers[known]
		sv.Assert(c.ImportFireAndForget("n", "o") == k, "table")
		if !p.hangup {
			c.FireAndForget(context.Background(), payload.New([]byte{byte(i)}))
			sv.SameBytes(p.sent(), wire(encoded(&frames.RequestPayload{
				FrameType: frames.FrameTypeRequestFNF, StreamID: 2, Data: []byte{byte(i)}, Complete: true, InitialN: 1,
			})), "sent")
			sv.Reach("accepted")
		}
	}
	sv.Preempt(-1) // ServerEnds explores the end
	s.stop()
	s.over()
	for _, p := range ps {
		sv.Assert(p.closed(), "left-open")
	}
	sv.Reach("ended")
}

// ServerPeer serves a peer.
//
//sv:harness prop=C54 sched=1 preempt=0 dpreempt=1 time=60 dtime=400
//sv:bound 1 peer of any kind (see ServerPeers, but a set-up frame is the last one), then the end of the server; no preemption but every order in which goroutines that wait can go on (1 preemption in the thorough tier)
func ServerPeer() { serve(1) }

// ServerPeers serves peers that connect one after the other.
//
//sv:harness prop=C54 sched=1 preempt=-1 dpreempt=-1 time=60 dtime=400
//sv:bound 2 peers (3 in the thorough tier) connecting one after the other (the connecting of any possibly preceded by a failure to accept), each of which sends a set-up frame announcing an operation of any index (followed by another frame or not), another frame, something that is no frame or nothing, then hangs up or keeps the connection; then the server is closed, its context ends or its listener is closed; one order in which goroutines go on
func ServerPeers() { serve(deep(2, 3)) }

// ServerEnds ends while a peer connects.
//
//sv:harness prop=C54 sched=1 preempt=0 dpreempt=1 time=60 dtime=600
//sv:bound 1 peer of any kind (see ServerPeer) that connects while the server is closed, its context ends or its listener is closed; every order in which goroutines that wait can go on (and interleavings with up to 1 preemption in the thorough tier); data races included
func ServerEnds() {
	sv.Races()
	s := newServer()
	s.listen()
	sv.Preempt(-1)
	sv.Assert(<-s.up, "listening")
	p, ok := newPeer(1, false)
	sv.Quiesce()
	sv.Preempt(deep(0, 1))
	s.l.in <- p
	s.stop()
	s.over()
	if len(s.l.in) == 0 {
		sv.Assert(p.closed(), "left-open")
		sv.Reach("connected")
	} else {
		sv.Assert(len(s.callers) == 0, "unconnected")
	}
	sv.Assert(len(s.callers) == 0 || ok && len(s.callers) == 1, "accepted")
	if len(s.callers) > 0 {
		sv.Reach("accepted")
	}
}

// ServerStarts ends while it starts to listen.
//
//sv:harness prop=C54 sched=1 preempt=2 dpreempt=3 time=60 dtime=400
//sv:bound a server that cannot listen, or one that is closed or whose context ends before or while it starts to listen; interleavings with up to 2 preemptions (3 in the thorough tier) at synchronisation points; data races included
func ServerStarts() {
	sv.Races()
	s := newServer()
	if sv.Bool("fail") {
		s.err = errNet
		s.listen()
		sv.Assert(!<-s.up, "listening")
		sv.Assert(errors.Is(<-s.ended, errNet), "fails")
		sv.Assert(s.Close() == nil, "close")
		s.cancel()
		sv.Assert(sv.Quiesce() == 0, "left")
		sv.Reach("fails")
		return
	}
	stop := func() {
		if sv.Bool("close") {
			sv.Assert(s.Close() == nil, "close")
		} else {
			s.cancel()
		}
	}
	if sv.Bool("before") {
		sv.Assert(s.Close() == nil, "close")
		s.listen()
	} else {
		s.listen()
		stop()
	}
	<-s.up
	s.over()
	sv.Reach("ends")
}
