package rsocket

import (
	"io"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/transport/rsocket"
)

var requestTypes = []frames.FrameType{frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel}

func streamID() uint32 {
	id := sv.U32("id")
	sv.Assume(id < 1<<31)
	return id
}

// anyFrame is a frame of any kind with small fields.
func anyFrame(name string) frames.Frame {
	data, md := sv.Bytes(name+".data", 3), sv.Bytes(name+".md", 2)
	switch sv.Choose(name, 6) {
	case 0:
		return &frames.Setup{MajorVersion: sv.U16("major"), MinorVersion: sv.U16("minor"),
			TimeBetweenKeepalive: time.Duration(sv.U32("keepalive")) * time.Millisecond,
			MaxLifetime:          time.Duration(sv.U32("lifetime")) * time.Millisecond,
			MimeMetadata:         sv.String("mime", 1), MimeData: "m", Data: data, Metadata: md}
	case 1:
		r := &frames.RequestPayload{FrameType: requestTypes[sv.Choose("type", 4)], StreamID: streamID(), Data: data, Metadata: md,
			Follows: sv.Bool("follows"), InitialN: 1, Complete: true}
		if r.FrameType == frames.FrameTypeRequestChannel {
			r.Complete = sv.Bool("complete")
		}
		if r.FrameType == frames.FrameTypeRequestStream || r.FrameType == frames.FrameTypeRequestChannel {
			r.InitialN = sv.U32("n")
		}
		return r
	case 2:
		return &frames.RequestN{StreamID: streamID(), N: sv.U32("n")}
	case 3:
		return &frames.Cancel{StreamID: streamID()}
	case 4:
		return &frames.Payload{StreamID: streamID(), Data: data, Metadata: md, Next: sv.Bool("next"), Complete: sv.Bool("complete"), Follows: sv.Bool("follows")}
	default:
		return &frames.Error{StreamID: streamID(), Code: frames.ErrCode(sv.U32("code")), Data: string(data)}
	}
}

// sameFrame compares all fields.
func sameFrame(got, want frames.Frame, label string) {
	sv.Assert(got != nil && got.Type() == want.Type(), label+"-type")
	switch w := want.(type) {
	case *frames.Setup:
		g, ok := got.(*frames.Setup)
		sv.Assert(ok, label)
		sv.Assert(g.MajorVersion == w.MajorVersion && g.MinorVersion == w.MinorVersion, label+"-version")
		sv.Assert(g.TimeBetweenKeepalive == w.TimeBetweenKeepalive && g.MaxLifetime == w.MaxLifetime, label+"-times")
		sv.SameString(g.MimeMetadata, w.MimeMetadata, label+"-mime")
		sv.SameString(g.MimeData, w.MimeData, label+"-mime")
		sv.SameBytes(g.Metadata, w.Metadata, label+"-metadata")
		sv.SameBytes(g.Data, w.Data, label+"-data")
	case *frames.RequestPayload:
		g, ok := got.(*frames.RequestPayload)
		sv.Assert(ok, label)
		sv.Assert(g.FrameType == w.FrameType && g.StreamID == w.StreamID, label+"-stream")
		sv.Assert(g.InitialN == w.InitialN && g.Follows == w.Follows && g.Complete == w.Complete, label+"-flags")
		sv.SameBytes(g.Metadata, w.Metadata, label+"-metadata")
		sv.SameBytes(g.Data, w.Data, label+"-data")
	case *frames.RequestN:
		g, ok := got.(*frames.RequestN)
		sv.Assert(ok, label)
		sv.Assert(g.StreamID == w.StreamID && g.N == w.N, label+"-n")
	case *frames.Cancel:
		g, ok := got.(*frames.Cancel)
		sv.Assert(ok, label)
		sv.Assert(g.StreamID == w.StreamID, label+"-stream")
	case *frames.Payload:
		g, ok := got.(*frames.Payload)
		sv.Assert(ok, label)
		sv.Assert(g.StreamID == w.StreamID && g.Next == w.Next && g.Follows == w.Follows && g.Complete == w.Complete, label+"-flags")
		sv.SameBytes(g.Metadata, w.Metadata, label+"-metadata")
		sv.SameBytes(g.Data, w.Data, label+"-data")
	case *frames.Error:
		g, ok := got.(*frames.Error)
		sv.Assert(ok, label)
		sv.Assert(g.StreamID == w.StreamID && g.Code == w.Code, label+"-code")
		sv.SameString(g.Data, w.Data, label+"-text")
	}
}

// ConnFrames writes frames and reads them at the other end.
//
//sv:harness prop=C51 time=60 dtime=400
//sv:bound 2 frames of any kind with any values, up to 3 bytes of data and 2 of metadata
func ConnFrames() {
	out := &socket{}
	w := rsocket.NewTCPConn(out)
	a, b := anyFrame("a"), anyFrame("b")
	sv.Assert(w.Write(a) == nil, "write")
	sv.Assert(w.Write(b) == nil, "write")
	sv.Assert(len(out.sent()) <= len(wire(encoded(a)))+len(wire(encoded(b))), "early")
	sv.Assert(w.Flush() == nil, "flush")
	sv.SameBytes(out.sent(), append(wire(encoded(a)), wire(encoded(b))...), "wire")
	r := rsocket.NewTCPConn(&socket{in: &source{b: out.sent(), end: io.EOF}})
	ga, err := r.Read()
	sv.Assert(err == nil, "read")
	gb, err := r.Read()
	sv.Assert(err == nil, "read")
	sameFrame(ga, a, "first")
	sameFrame(gb, b, "second")
	_, err = r.Read()
	sv.Assert(err == io.EOF, "end")
	sv.Reach("end")
}

// ConnKeeps reads a frame and then others.
//
//sv:harness prop=C51 time=60 dtime=400
//sv:bound a payload, request, error or set-up frame with 4094 or 5000 bytes of data of which the first and last are arbitrary, followed by a payload frame of that size (any of these in the thorough tier) in a second chunk and a third one
func ConnKeeps() {
	n := []int{4094, 5000}[sv.Choose("size", 2)]
	mk := func(fill byte, kind int) frames.Frame {
		d := make([]byte, n)
		for i := range d {
			d[i] = fill
		}
		copy(d, sv.BytesN("first", 4))
		copy(d[n-4:], sv.BytesN("last", 4))
		switch kind {
		case 0:
			return &frames.Payload{StreamID: 1, Next: true, Data: d, Metadata: d[:8]}
		case 1:
			return &frames.RequestPayload{FrameType: frames.FrameTypeRequestChannel, StreamID: 1, InitialN: 1, Data: d, Metadata: d[:8]}
		case 2:
			return &frames.Error{StreamID: 1, Data: string(d)}
		default:
			return &frames.Setup{Data: d, Metadata: d[:8], MimeMetadata: "a", MimeData: "b"}
		}
	}
	a := mk(1, sv.Choose("kind", 4))
	b := mk(2, sv.Choose("next", deep(1, 4)))
	c := mk(3, 0)
	s := &source{end: io.EOF}
	s.b = append(s.b, wire(encoded(a))...)
	s.sizes = []int{len(s.b)}
	s.b = append(s.b, wire(encoded(b))...)
	s.b = append(s.b, wire(encoded(c))...)
	r := rsocket.NewTCPConn(&socket{in: s})
	var got []frames.Frame
	for i := 0; i < 3; i++ {
		f, err := r.Read()
		sv.Assert(err == nil, "read")
		got = append(got, f)
	}
	keptFrame(got[0], a, "first")
	keptFrame(got[1], b, "second")
	keptFrame(got[2], c, "third")
	sv.Reach("kept")
}

// keptFrame compares the arbitrary and some of the other data.
func keptFrame(got, want frames.Frame, label string) {
	sv.Assert(got.Type() == want.Type(), label+"-type")
	var g, w, gm, wm []byte
	switch got := got.(type) {
	case *frames.Payload:
		want := want.(*frames.Payload)
		g, w, gm, wm = got.Data, want.Data, got.Metadata, want.Metadata
	case *frames.RequestPayload:
		want := want.(*frames.RequestPayload)
		g, w, gm, wm = got.Data, want.Data, got.Metadata, want.Metadata
	case *frames.Setup:
		want := want.(*frames.Setup)
		g, w, gm, wm = got.Data, want.Data, got.Metadata, want.Metadata
	case *frames.Error:
		want := want.(*frames.Error)
		sv.Assert(len(got.Data) == len(want.Data), label+"-length")
		sv.SameString(got.Data[:16], want.Data[:16], label)
		sv.SameString(got.Data[len(got.Data)-16:], want.Data[len(want.Data)-16:], label)
		return
	}
	sv.Assert(len(g) == len(w), label+"-length")
	sv.SameBytes(g[:16], w[:16], label)
	sv.SameBytes(g[2000:2008], w[2000:2008], label)
	sv.SameBytes(g[len(g)-16:], w[len(w)-16:], label)
	sv.SameBytes(gm, wm, label+"-metadata")
}

// ConnBytes reads any bytes.
//
//sv:harness prop=C51 time=60 dtime=400
//sv:bound one frame of 0 to 12 arbitrary bytes (20 in the thorough tier)
func ConnBytes() {
	raw := sv.BytesN("raw", sv.Choose("length", deep(13, 21)))
	r := rsocket.NewTCPConn(&socket{in: &source{b: wire(raw), end: io.EOF}})
	f, err := r.Read()
	if err != nil {
		sv.Assert(f == nil, "frame-with-error")
		sv.Reach("error")
		return
	}
	sv.Assert(f != nil, "no-frame")
	h := frames.ParseFrameHeader(raw)
	sv.Assert(f.Type() == h.Type(), "type")
	if f.Type() != frames.FrameTypeSetup {
		sv.Assert(f.GetStreamID() == h.StreamID(), "stream")
	}
	sv.Reach("frame")
}

// ConnFails writes to a broken connection.
//
//sv:harness prop=C51 time=30
//sv:bound a frame of any kind, or one with 10000 or 2^24 bytes of data, on a connection that works or is broken
func ConnFails() {
	out := &socket{}
	broken := sv.Bool("broken")
	if broken {
		out.err = errNet
	}
	var f frames.Frame
	size := sv.Choose("size", 3)
	switch size {
	case 0:
		f = anyFrame("f")
	case 1:
		f = &frames.Payload{StreamID: 1, Data: make([]byte, 10000)}
	case 2:
		f = &frames.Payload{StreamID: 1, Data: make([]byte, 1<<24)}
	}
	c := rsocket.NewTCPConn(out)
	t := rsocket.NewTransport(c, &sink{}, true)
	err := t.Send(f, true)
	sv.Assert((err != nil) == (broken || size == 2), "error")
	if err != nil {
		sv.Assert(len(out.sent()) == 0, "sent")
		sv.Reach("error")
		return
	}
	sv.SameBytes(out.sent(), wire(encoded(f)), "wire")
	sv.Reach("sent")
}
