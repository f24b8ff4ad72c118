package conn

import (
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
)

// put appends the frame to a buffer shared with a guest.
func put(buf []byte, f frames.Frame) int {
	n := f.Size()
	buf[0], buf[1], buf[2] = byte(n>>16), byte(n>>8), byte(n)
	f.Encode(buf[3:])
	return int(n) + 3
}

// whole checks that the buffer holds one length-prefixed frame and returns it.
func whole(buf []byte) frames.Frame {
	sv.Assert(len(buf) >= 3+frames.FrameHeaderLen, "frame-header")
	n := int(buf[0])<<16 | int(buf[1])<<8 | int(buf[2])
	sv.Assert(n == len(buf)-3, "frame-length")
	b := append([]byte(nil), buf[3:]...)
	f := decode(b)
	sv.Assert(f != nil, "frame-kind")
	return f
}

// decode returns the frame, or nil.
func decode(b []byte) frames.Frame {
	h := frames.ParseFrameHeader(b)
	b = b[frames.FrameHeaderLen:]
	switch h.Type() {
	case frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
		f := &frames.RequestPayload{}
		if f.Decode(&h, b) == nil {
			return f
		}
	case frames.FrameTypeRequestN:
		f := &frames.RequestN{}
		if f.Decode(&h, b) == nil {
			return f
		}
	case frames.FrameTypeCancel:
		f := &frames.Cancel{}
		if f.Decode(&h, b) == nil {
			return f
		}
	case frames.FrameTypePayload:
		f := &frames.Payload{}
		if f.Decode(&h, b) == nil {
			return f
		}
	case frames.FrameTypeError:
		f := &frames.Error{}
		if f.Decode(&h, b) == nil {
			return f
		}
	}
	return nil
}
