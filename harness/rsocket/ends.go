package rsocket

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"strings"
	"sync"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

const (
	rr = iota
	fnf
	rs
	rc
)

// half is one direction of a connection.
type half struct {
	ch   chan []byte
	rest []byte
	mu   sync.Mutex
	shut bool
	end  chan struct{} // once it is shut
}

func newHalf() *half { return &half{ch: make(chan []byte, 64), end: make(chan struct{})} }

func (h *half) close() {
	h.mu.Lock()
	defer h.mu.Unlock()
	if !h.shut {
		h.shut = true
		close(h.end)
	}
}

func (h *half) write(b []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.shut {
		return 0, errClosed
	}
	h.ch <- append([]byte(nil), b...)
	return len(b), nil
}

func (h *half) read(b []byte) (int, error) {
	if len(h.rest) == 0 {
		select {
		case h.rest = <-h.ch:
		case <-h.end:
			select {
			case h.rest = <-h.ch:
			default:
				return 0, io.EOF
			}
		}
	}
	n := copy(b, h.rest)
	h.rest = h.rest[n:]
	return n, nil
}

// side is one end of a connection.
type side struct {
	socket
	in, out *half
	gone    chan struct{} // once it is closed
}

func (s *side) Read(b []byte) (int, error) {
	select {
	case <-s.gone:
		return 0, errClosed
	default:
	}
	n, err := s.in.read(b)
	select {
	case <-s.gone:
		return 0, errClosed
	default:
	}
	return n, err
}

func (s *side) Write(b []byte) (int, error) { return s.out.write(b) }

func (s *side) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closes++
	if s.closes == 1 {
		close(s.gone)
		s.in.close()
		s.out.close()
	}
	return nil
}

func connect() (a, b *side) {
	x, y := newHalf(), newHalf()
	return &side{in: x, out: y, gone: make(chan struct{})}, &side{in: y, out: x, gone: make(chan struct{})}
}

// remote is an operation of one of the ends.
type remote struct {
	mu     sync.Mutex
	kind   int
	want   payload.Payload   // what it is called with
	vals   []payload.Payload // what it yields
	text   string            // what it fails with, if it does
	silent bool              // it yields nothing
	calls  int
	in     []payload.Payload
	inEnd  int // terminal signals of its input
	stop   int // times it was cancelled
}

func (r *remote) called(p payload.Payload) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.calls++
	sv.SameBytes(p.Data(), r.want.Data(), "called-with")
}

func (r *remote) mono(p payload.Payload) mono.Mono[payload.Payload] {
	r.called(p)
	return mono.Create(func(s mono.Sink[payload.Payload]) {
		switch {
		case r.silent:
		case r.text != "":
			s.Error(textError(r.text))
		default:
			s.Success(r.vals[0])
		}
	})
}

func (r *remote) flux(p payload.Payload) flux.Flux[payload.Payload] {
	r.called(p)
	return flux.Create(func(s flux.Sink[payload.Payload]) {
		s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {
			r.mu.Lock()
			r.stop++
			r.mu.Unlock()
		}})
		for _, v := range r.vals {
			s.Next(v)
		}
		switch {
		case r.silent:
		case r.text != "":
			s.Error(textError(r.text))
		default:
			s.Complete()
		}
	})
}

// collect records the input of a channel.
func (r *remote) collect(in flux.Flux[payload.Payload]) {
	end := func() {
		r.mu.Lock()
		r.inEnd++
		r.mu.Unlock()
	}
	in.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext: func(p payload.Payload) {
			r.mu.Lock()
			r.in = append(r.in, p)
			r.mu.Unlock()
		},
		OnComplete: end,
		OnError:    func(error) { end() },
	})
}

type textError string

func (e textError) Error() string { return string(e) }

// register makes it operation n.o of its kind, next to others.
func (r *remote) register() {
	wrong := func() { sv.Fail("wrong-operation") }
	before, after := sv.Bool("before"), sv.Bool("after")
	add := func(name string) {
		switch r.kind {
		case rr:
			invoke.ExportRequestResponse("n", name, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { wrong(); return nil })
		case fnf:
			invoke.ExportFireAndForget("n", name, func(context.Context, payload.Payload) { wrong() })
		case rs:
			invoke.ExportRequestStream("n", name, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { wrong(); return nil })
		case rc:
			invoke.ExportRequestChannel("n", name, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				wrong()
				return nil
			})
		}
	}
	if before {
		add("x")
	}
	switch r.kind {
	case rr:
		invoke.ExportRequestResponse("n", "o", func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] { return r.mono(p) })
	case fnf:
		invoke.ExportFireAndForget("n", "o", func(_ context.Context, p payload.Payload) { r.called(p) })
	case rs:
		invoke.ExportRequestStream("n", "o", func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] { return r.flux(p) })
	case rc:
		invoke.ExportRequestChannel("n", "o", func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			r.collect(in)
			return r.flux(p)
		})
	}
	if after {
		add("y")
	}
}

// outcome is what a caller is told.
type outcome struct {
	mu   sync.Mutex
	vals []payload.Payload
	ends int
	text string
	fail bool
	stop int // times the input was cancelled
	in   flux.Sink[payload.Payload]
}

func (o *outcome) next(p payload.Payload) {
	o.mu.Lock()
	defer o.mu.Unlock()
	sv.Assert(o.ends == 0, "after-end")
	o.vals = append(o.vals, p)
}

func (o *outcome) end(err error) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.ends++
	if err != nil {
		o.fail, o.text = true, err.Error()
	}
}

// find is the index of the operation.
func find(c invoke.Caller, kind int) uint32 {
	switch kind {
	case rr:
		return c.ImportRequestResponse("n", "o")
	case fnf:
		return c.ImportFireAndForget("n", "o")
	case rs:
		return c.ImportRequestStream("n", "o")
	}
	return c.ImportRequestChannel("n", "o")
}

// call makes a call; in is the input of a channel, which goes on if open.
func call(c invoke.Caller, kind int, p payload.Payload, in []payload.Payload, open bool) *outcome {
	o := &outcome{}
	ctx := context.Background()
	sub := flux.Subscribe[payload.Payload]{OnNext: o.next, OnComplete: func() { o.end(nil) }, OnError: o.end}
	switch kind {
	case rr:
		c.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
			OnSuccess: func(p payload.Payload) { o.next(p); o.end(nil) },
			OnError:   o.end,
		})
	case fnf:
		c.FireAndForget(ctx, p)
	case rs:
		c.RequestStream(ctx, p).Subscribe(sub)
	case rc:
		c.RequestChannel(ctx, p, flux.Create(func(s flux.Sink[payload.Payload]) {
			s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {
				o.mu.Lock()
				o.stop++
				o.mu.Unlock()
			}})
			o.in = s
			for _, p := range in {
				s.Next(p)
			}
			if !open {
				s.Complete()
			}
		})).Subscribe(sub)
	}
	return o
}

func samePayload(got, want payload.Payload, label string) {
	sv.SameBytes(got.Data(), want.Data(), label+"-data")
	sv.SameBytes(got.Metadata(), want.Metadata(), label+"-metadata")
}

func samePayloads(got, want []payload.Payload, label string) {
	sv.Assert(len(got) == len(want), label+"-number")
	for i := range got {
		samePayload(got[i], want[i], label)
	}
}

// network makes the network of one server.
func network(l *port, kind, at string) {
	rsocket.VerifListen = func(n, addr string) (net.Listener, error) {
		sv.Assert(n == kind && strings.HasSuffix(addr, at), "listens")
		return l, nil
	}
	rsocket.VerifDial = func(_ context.Context, n, addr string) (net.Conn, error) {
		sv.Assert(n == kind && strings.HasSuffix(addr, at) && len(addr) > len(at), "dials")
		a, b := connect()
		l.in <- a
		return b, nil
	}
}

// EndToEnd connects a client to a server through a network and makes a call.
//
//sv:harness prop=C55 preempt=-1 dpreempt=0 g=40 time=90 dtime=600
//sv:bound a server and a client made by NewServer and Connect, with the network and address of the environment or the usual ones; a call of any kind by either end, of 2 bytes of data, with up to 1 other operation of that kind registered before and after it; up to 2 elements of a stream, channel or channel input with up to 2 bytes of data and 1 of metadata; success or a failure with 2 bytes of text; then the server is closed or its context ends; one schedule (all without preemption in the thorough tier)
func EndToEnd() {
	env := map[string]string{}
	kind, at := "tcp", ":7878"
	if sv.Bool("configured") {
		kind, at = "tcp4", ":9"
		env["RSOCKET_NETWORK"], env["RSOCKET_ADDRESS"] = "tcp4", "host:9"
	}
	l := newPort()
	rsocket.VerifEnv = env
	network(l, kind, at)
	r := &remote{kind: sv.Choose("kind", 4)}
	r.register()
	some := func(name string) payload.Payload {
		return payload.New(sv.Bytes(name+".data", 2), sv.Bytes(name+".md", 1))
	}
	var in []payload.Payload
	n := 1
	if r.kind == rs || r.kind == rc {
		n = sv.Choose("elements", 3)
	}
	for i := 0; i < n; i++ {
		r.vals = append(r.vals, some("value"))
	}
	if r.kind == rc {
		for i := sv.Choose("inputs", 3); i > 0; i-- {
			in = append(in, some("input"))
		}
	}
	if sv.Bool("fails") {
		r.text = "x" + sv.StringN("text", 1)
		if r.kind == rr {
			r.vals = nil
		}
	}
	data := sv.BytesN("data", 2)
	want := func(idx uint32) payload.Payload {
		md := append(binary.BigEndian.AppendUint32(nil, idx), 0, 0, 0, 0)
		r.want = payload.New(data, md)
		return r.want
	}
	var o *outcome
	calls := sv.Bool("server-calls")
	accepted := 0
	s := rsocket.NewServer(func(_ context.Context, c invoke.Caller, _ func(*rsocket.Transport)) {
		accepted++
		if calls {
			o = call(c, r.kind, want(find(c, r.kind)), in, false)
		}
	})
	ctx, cancel := context.WithCancel(context.Background())
	up, ended, left := make(chan bool, 1), false, false
	go func() {
		sv.Assert(s.Listen(ctx, up) == nil, "listen")
		ended = true
	}()
	sv.Assert(<-up, "listening")
	h := rsocket.Handler(context.Background())
	go func() {
		sv.Assert(rsocket.Connect(h) == nil, "connection")
		left = true
	}()
	sv.Quiesce()
	sv.Assert(accepted == 1, "accepted")
	sv.Assert(!left && !ended, "early")
	if !calls {
		var idx uint32
		for _, op := range invoke.GetOperationsTable() {
			if op.Operation == "o" {
				idx = op.Index
			}
		}
		o = call(h, r.kind, want(idx), in, false)
		sv.Quiesce()
	}
	sv.Assert(r.calls == 1, "called")
	sv.Assert(r.inEnd == 0 || r.kind == rc, "input")
	if r.kind == rc {
		sv.Assert(r.inEnd <= 1, "input-ends")
		if r.text == "" {
			sv.Assert(r.inEnd == 1, "input-end")
			samePayloads(r.in, in, "input")
		}
	}
	if r.kind != fnf {
		sv.Assert(o.ends == 1, "ends")
		sv.Assert(o.fail == (r.text != ""), "success")
		sv.SameString(o.text, r.text, "text")
		samePayloads(o.vals, r.vals, "values")
	} else {
		sv.Assert(o.ends == 0 && len(o.vals) == 0, "told")
	}
	if sv.Bool("close") {
		sv.Assert(s.Close() == nil, "close")
	} else {
		cancel()
	}
	sv.Assert(sv.Quiesce() == 0, "left")
	sv.Assert(ended && left, "over")
	sv.Assert(l.closes() > 0, "left-listening")
	cancel()
	sv.Assert(o.ends <= 1, "again")
	sv.Reach("end")
}

// BothCall has both ends of a connection call each other at the same time.
//
//sv:harness prop=C55 preempt=-1 dpreempt=0 g=40 time=60 dtime=600
//sv:bound a server and a client made by NewServer and Connect, each with a stream or channel call to the other in progress; then an element of 1 byte, completion or failure of each, in any order, and up to 1 simple request by each; one schedule (all without preemption in the thorough tier)
func BothCall() {
	l := newPort()
	rsocket.VerifEnv = nil
	network(l, "tcp", ":7878")
	// operation 0 is for the server, 1 for the client
	var sinks [2]flux.Sink[payload.Payload]
	var os, plain [2]*outcome
	kind := rs
	if sv.Bool("channel") {
		kind = rc
	}
	for i := range sinks {
		i := i
		answer := func() flux.Flux[payload.Payload] {
			return flux.Create(func(s flux.Sink[payload.Payload]) {
				s.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
				sinks[i] = s
			})
		}
		invoke.ExportRequestStream("n", "o", func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return answer() })
		invoke.ExportRequestChannel("n", "o", func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			in.Subscribe(flux.Subscribe[payload.Payload]{})
			return answer()
		})
	}
	invoke.ExportRequestResponse("n", "o", func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		return mono.Just(p)
	})
	var callers [2]invoke.Caller
	s := rsocket.NewServer(func(_ context.Context, c invoke.Caller, _ func(*rsocket.Transport)) { callers[1] = c })
	up := make(chan bool, 1)
	go func() { sv.Assert(s.Listen(context.Background(), up) == nil, "listen") }()
	sv.Assert(<-up, "listening")
	h := rsocket.Handler(context.Background())
	callers[0] = h
	go func() { sv.Assert(rsocket.Connect(h) == nil, "connection") }()
	sv.Quiesce()
	first := sv.Choose("first", 2)
	for k := 0; k < 2; k++ {
		i := (first + k) % 2
		os[i] = call(callers[i], kind, payload.New([]byte{1}, []byte{0, 0, 0, byte(i), 0, 0, 0, 0}), nil, true)
		sv.Quiesce()
		sv.Assert(sinks[i] != nil, "called")
	}
	var want [2][]payload.Payload
	var ended [2]int
	for k := 0; k < deep(3, 4); k++ {
		i := sv.Choose("who", 2)
		switch sv.Choose("do", 4) {
		case 0:
			p := payload.New(sv.BytesN("element", 1), []byte{})
			sinks[i].Next(p)
			if ended[i] == 0 {
				want[i] = append(want[i], p)
			}
		case 1:
			sinks[i].Complete()
			if ended[i] == 0 {
				ended[i] = 1
			}
		case 2:
			sinks[i].Error(errNet)
			if ended[i] == 0 {
				ended[i] = 2
			}
		case 3:
			sv.Assume(plain[i] == nil)
			plain[i] = call(callers[i], rr, payload.New([]byte{byte(7 + i)}, make([]byte, 8)), nil, false)
		}
		sv.Quiesce()
		for i, o := range os {
			samePayloads(o.vals, want[i], "elements")
			sv.Assert((o.ends == 1) == (ended[i] > 0) && o.ends <= 1, "ends")
			sv.Assert(o.fail == (ended[i] == 2), "fails")
		}
		for i, o := range plain {
			if o != nil {
				sv.Assert(o.ends == 1 && !o.fail && len(o.vals) == 1, "answered")
				sv.SameBytes(o.vals[0].Data(), []byte{byte(7 + i)}, "answer")
			}
		}
	}
	sv.Assert(s.Close() == nil, "close")
	sv.Assert(sv.Quiesce() == 0, "left")
	for _, o := range os {
		sv.Assert(o.ends == 1, "over")
	}
	sv.Reach("end")
}

// demanded is a source that is sent to as the other end asks.
type demanded struct {
	mu    sync.Mutex
	asked int // by the other end
	sink  flux.Sink[payload.Payload]
}

func (d *demanded) flux() flux.Flux[payload.Payload] {
	return flux.Create(func(s flux.Sink[payload.Payload]) {
		d.sink = s
		s.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
			d.mu.Lock()
			d.asked += n
			d.mu.Unlock()
		}, Cancel: func() {}})
	})
}

// demanding asks for elements in its own time.
type demanding struct {
	outcome
	sub rx.Subscription
}

func (d *demanding) subscribe(f flux.Flux[payload.Payload]) {
	f.Subscribe(flux.Subscribe[payload.Payload]{OnNext: d.next, OnComplete: func() { d.end(nil) }, OnError: d.end,
		OnRequest: func(s rx.Subscription) { d.sub = s }})
}

// ByDemand has one end of a connection ask the other for elements a few at a
// time.
//
//sv:harness prop=C55 preempt=-1 dpreempt=0 g=40 time=60 dtime=600
//sv:bound a server and a client made by NewServer and Connect; a stream, channel response or channel input from either to the other; 2 requests (3 in the thorough tier) for up to 3 elements, each followed by up to as many elements of 1 byte as were asked for; completion or failure; one schedule (all without preemption in the thorough tier)
func ByDemand() {
	l := newPort()
	rsocket.VerifEnv = nil
	network(l, "tcp", ":7878")
	out, in := &demanded{}, &demanded{}
	input := &demanding{}
	invoke.ExportRequestStream("n", "o", func(context.Context, payload.Payload) flux.Flux[payload.Payload] { return out.flux() })
	invoke.ExportRequestChannel("n", "o", func(_ context.Context, _ payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		input.subscribe(in)
		return out.flux()
	})
	var callers [2]invoke.Caller
	s := rsocket.NewServer(func(_ context.Context, c invoke.Caller, _ func(*rsocket.Transport)) { callers[1] = c })
	up := make(chan bool, 1)
	go func() { sv.Assert(s.Listen(context.Background(), up) == nil, "listen") }()
	sv.Assert(<-up, "listening")
	h := rsocket.Handler(context.Background())
	callers[0] = h
	go func() { sv.Assert(rsocket.Connect(h) == nil, "connection") }()
	sv.Quiesce()
	c := callers[sv.Choose("who", 2)]
	p := payload.New([]byte{1}, make([]byte, 8))
	from, to := out, &demanding{}
	to2 := input
	what := sv.Choose("what", 3)
	if what == 0 {
		to.subscribe(c.RequestStream(context.Background(), p))
	} else {
		to.subscribe(c.RequestChannel(context.Background(), p, in.flux()))
		if what == 2 {
			// the call is made once its response is asked for
			sv.Assert(to.sub != nil, "asks")
			to.sub.Request(1)
			sv.Quiesce()
			sv.Assert(out.asked == 1, "response-demand")
			from, to, to2 = in, input, to
		}
	}
	sv.Assert(to.sub != nil, "asks")
	total := 0
	var want []payload.Payload
	for i := 0; i < deep(2, 3); i++ {
		n := sv.Choose("ask", 3) + 1
		to.sub.Request(n)
		total += n
		sv.Quiesce()
		sv.Assert(from.asked == total, "demand")
		for k := sv.Choose("send", n+1); k > 0; k-- {
			v := payload.New(sv.BytesN("element", 1), []byte{})
			want = append(want, v)
			from.sink.Next(v)
		}
		sv.Quiesce()
		samePayloads(to.vals, want, "elements")
		sv.Assert(to.ends == 0, "ends-early")
	}
	fails := sv.Bool("fails")
	if fails {
		from.sink.Error(errNet)
	} else {
		from.sink.Complete()
	}
	sv.Quiesce()
	sv.Assert(to.ends == 1 && to.fail == fails, "ends")
	samePayloads(to.vals, want, "elements")
	sv.Assert(len(to2.vals) == 0, "strange")
	sv.Assert(s.Close() == nil, "close")
	sv.Assert(sv.Quiesce() == 0, "left")
	sv.Reach("end")
}

// CallsEnd ends a connection while calls wait.
//
//sv:harness prop=C56 preempt=0 dpreempt=0 time=60 dtime=400
//sv:bound a client or server; up to 1 call (2 in the thorough tier) of any kind that the peer has answered with nothing, an element, an ending or a failure; the connection ends by the peer hanging up, an error, the end of the context or by being closed; then a call of any kind is made
func CallsEnd() { callsEnd(deep(1, 2), false) }

// CallsEndAtOnce ends a connection while a call is made.
//
//sv:harness prop=C56 sched=1 preempt=1 dpreempt=2 time=60 dtime=400
//sv:bound a client; a call of any kind made while the connection ends by the peer hanging up, the end of the context or by being closed; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points; data races included
func CallsEndAtOnce() {
	sv.Races()
	sv.Preempt(-1)
	callsEnd(0, true)
}

func callsEnd(most int, atOnce bool) {
	near, far := connect()
	server := !atOnce && sv.Bool("server")
	mode := handler.ClientMode
	if server {
		mode = handler.ServerMode
	}
	ctx, cancel := context.WithCancel(context.Background())
	h := handler.New(ctx, mode)
	t := rsocket.NewTransport(rsocket.NewTCPConn(near), h, server)
	if server {
		far.Write(wire(encoded(&frames.Setup{MinorVersion: 2, Data: operations.Table{}.ToBytes()})))
	}
	over := false
	go func() {
		t.Start(ctx)
		over = true
	}()
	p := payload.New([]byte{1}, make([]byte, 8))
	var os []*outcome
	var kinds []int
	if !atOnce {
		sv.Quiesce()
		for i := sv.Choose("calls", most+1); i > 0; i-- {
			k := sv.Choose("kind", 4)
			id := uint32(2*len(os) + 1)
			if server {
				id++
			}
			o := call(h, k, p, nil, true)
			var f frames.Frame
			ends := 0
			switch sv.Choose("answered", 4) {
			case 1:
				f = &frames.Payload{StreamID: id, Next: true}
				ends = 0
				if k == rr {
					ends = 1
				}
			case 2:
				f = &frames.Payload{StreamID: id, Complete: true}
				ends = 1
			case 3:
				f = &frames.Error{StreamID: id, Data: "e"}
				ends = 1
			}
			if f != nil {
				far.Write(wire(encoded(f)))
				sv.Quiesce()
				if k != fnf {
					sv.Assert(o.ends == ends, "answered")
				}
			}
			os, kinds = append(os, o), append(kinds, k)
		}
	}
	finish := func() {
		switch sv.Choose("end", 4) {
		case 0:
			far.Close()
		case 1:
			if atOnce {
				sv.Assume(false)
			}
			far.Write([]byte{0, 0, 0}) // not a frame
		case 2:
			cancel()
		case 3:
			t.Close()
		}
	}
	late := sv.Choose("late", 4)
	if atOnce {
		sv.Quiesce()
		sv.Preempt(deep(1, 2))
		done := make(chan struct{})
		go func() {
			finish()
			close(done)
		}()
		os, kinds = append(os, call(h, late, p, nil, true)), append(kinds, late)
		<-done
	} else {
		finish()
	}
	sv.Preempt(-1)
	sv.Quiesce()
	sv.Assert(over, "over")
	if !atOnce {
		os, kinds = append(os, call(h, late, p, nil, true)), append(kinds, late)
	}
	sv.Assert(sv.Quiesce() == 0, "left")
	for i, o := range os {
		if kinds[i] == fnf {
			continue
		}
		sv.Assert(o.ends == 1, "ends-once")
		if i == len(os)-1 {
			sv.Assert(o.fail, "fails")
		}
		if kinds[i] == rc && o.in != nil {
			sv.Assert(o.stop > 0, "input-stops")
		}
	}
	cancel()
	sv.Reach("end")
}

// ServingEnds ends a connection while requests of the peer are served.
//
//sv:harness prop=C56 preempt=0 dpreempt=1 time=60 dtime=400
//sv:bound a client; up to 1 request (2 in the thorough tier) of the peer of any kind, with up to 1 element of a response or channel input sent; the connection ends by the peer hanging up, an error, the end of the context or by being closed
func ServingEnds() {
	near, far := connect()
	ctx, cancel := context.WithCancel(context.Background())
	h := handler.New(ctx, handler.ClientMode)
	t := rsocket.NewTransport(rsocket.NewTCPConn(near), h, false)
	over := false
	go func() {
		t.Start(ctx)
		over = true
	}()
	var rems []*remote
	types := []frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}
	for i := sv.Choose("requests", deep(2, 3)); i > 0; i-- {
		r := &remote{kind: sv.Choose("kind", 4), silent: true, want: payload.New([]byte{1})}
		idx := uint32(0)
		for _, o := range rems {
			if o.kind == r.kind {
				idx++
			}
		}
		if r.kind != rr && r.kind != fnf && sv.Bool("element") {
			r.vals = []payload.Payload{payload.New([]byte{2})}
		}
		switch r.kind {
		case rr:
			invoke.ExportRequestResponse("n", "o", func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] { return r.mono(p) })
		case fnf:
			invoke.ExportFireAndForget("n", "o", func(_ context.Context, p payload.Payload) { r.called(p) })
		case rs:
			invoke.ExportRequestStream("n", "o", func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] { return r.flux(p) })
		case rc:
			invoke.ExportRequestChannel("n", "o", func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				r.collect(in)
				return r.flux(p)
			})
		}
		id := uint32(2*len(rems) + 2)
		far.Write(wire(encoded(&frames.RequestPayload{FrameType: types[r.kind], StreamID: id, InitialN: rx.RequestMax,
			Metadata: []byte{0, 0, 0, byte(idx), 0, 0, 0, 0}, Data: []byte{1}})))
		sv.Quiesce()
		sv.Assert(r.calls == 1, "called")
		if r.kind == rc && sv.Bool("input") {
			far.Write(wire(encoded(&frames.Payload{StreamID: id, Data: []byte{3}, Next: true})))
			sv.Quiesce()
			sv.Assert(len(r.in) == 1, "input")
		}
		rems = append(rems, r)
	}
	switch sv.Choose("end", 4) {
	case 0:
		far.Close()
	case 1:
		far.Write([]byte{0, 0, 0}) // not a frame
	case 2:
		cancel()
	case 3:
		t.Close()
	}
	sv.Assert(sv.Quiesce() == 0, "left")
	sv.Assert(over, "over")
	for _, r := range rems {
		if r.kind == rs || r.kind == rc {
			sv.Assert(r.stop == 1, "stopped")
		}
		if r.kind == rc {
			sv.Assert(r.inEnd == 1, "input-ends")
		}
	}
	cancel()
	sv.Reach("end")
}

// ServingEndsAtOnce ends a connection while a request of the peer arrives.
//
//sv:harness prop=C56 sched=1 preempt=1 dpreempt=2 time=120 dtime=600
//sv:bound a client; a request of any kind that arrives while the connection ends by the peer hanging up, an error, the end of the context or by being closed; interleavings with up to 1 preemption (2 in the thorough tier) at synchronisation points
func ServingEndsAtOnce() {
	sv.Preempt(-1)
	near, far := connect()
	ctx, cancel := context.WithCancel(context.Background())
	h := handler.New(ctx, handler.ClientMode)
	t := rsocket.NewTransport(rsocket.NewTCPConn(near), h, false)
	over := false
	go func() {
		t.Start(ctx)
		over = true
	}()
	types := []frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}
	r := &remote{kind: sv.Choose("kind", 4), silent: true, want: payload.New([]byte{1})}
	invoke.ExportRequestResponse("n", "o", func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] { return r.mono(p) })
	invoke.ExportFireAndForget("n", "o", func(_ context.Context, p payload.Payload) { r.called(p) })
	invoke.ExportRequestStream("n", "o", func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] { return r.flux(p) })
	invoke.ExportRequestChannel("n", "o", func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		r.collect(in)
		return r.flux(p)
	})
	sv.Quiesce()
	end := sv.Choose("end", 4)
	sv.Preempt(deep(1, 2))
	far.Write(wire(encoded(&frames.RequestPayload{FrameType: types[r.kind], StreamID: 2, InitialN: rx.RequestMax,
		Metadata: make([]byte, 8), Data: []byte{1}})))
	switch end {
	case 0:
		far.Close()
	case 1:
		far.Write([]byte{0, 0, 0}) // not a frame
	case 2:
		cancel()
	case 3:
		t.Close()
	}
	sv.Assert(sv.Quiesce() == 0, "left")
	sv.Preempt(-1)
	sv.Assert(over, "over")
	sv.Assert(r.calls <= 1, "called-again")
	if end < 2 {
		// what arrived before the end is served
		sv.Assert(r.calls == 1, "called")
	}
	if r.calls == 1 {
		sv.Reach("served")
		if r.kind == rs || r.kind == rc {
			sv.Assert(r.stop == 1, "stopped")
		}
		if r.kind == rc {
			sv.Assert(r.inEnd == 1, "input-ends")
		}
	}
	cancel()
	sv.Reach("end")
}
