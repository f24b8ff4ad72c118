package rsocket

import (
	"errors"
	"io"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// chunk cuts the stream at any places and ends it in any way.
func chunk(s *source, cuts int) {
	for i := 0; i < cuts; i++ {
		s.sizes = append(s.sizes, sv.Choose("chunk", len(s.b)+1))
	}
	s.with = sv.Bool("with")
	switch sv.Choose("end", 3) {
	case 0:
		s.end = io.EOF
	case 1:
		s.end = errNet
	case 2:
		s.end = errClosed
	}
}

// ended is how the decoder reports the end of the stream.
func (s *source) ended(err error) {
	if s.end == errNet {
		sv.Assert(errors.Is(err, errNet), "end-error")
		return
	}
	sv.Assert(err == io.EOF, "end")
}

// DecoderFrames reads whole frames.
//
//sv:harness prop=C50 time=60 dtime=400
//sv:bound up to 2 frames (3 in the thorough tier) of 6 or 8 arbitrary bytes, possibly followed by a part of another, arriving in up to 3 chunks cut anywhere (empty ones included), with the end of the stream, an error or closing of the connection coming with or after the last bytes
func DecoderFrames() {
	var fs [][]byte
	s := &source{}
	for i := sv.Choose("frames", deep(3, 4)); i > 0; i-- {
		f := sv.BytesN("frame", 6+2*sv.Choose("long", 2))
		fs = append(fs, f)
		s.b = append(s.b, wire(f)...)
	}
	part := wire(sv.BytesN("part", 6))
	s.b = append(s.b, part[:3*sv.Choose("partial", 3)]...)
	chunk(s, 2)
	d := rsocket.NewLengthBasedFrameDecoder(s)
	for _, f := range fs {
		raw, err := d.Read()
		sv.Assert(err == nil, "frame")
		sv.SameBytes(raw, f, "frame")
	}
	_, err := d.Read()
	s.ended(err)
	_, err = d.Read()
	s.ended(err)
	sv.Reach("end")
}

// DecoderBytes reads any bytes.
//
//sv:harness prop=C50 time=60 dtime=400
//sv:bound 12 arbitrary bytes (18 in the thorough tier) arriving in 2 chunks, read 5 times
func DecoderBytes() {
	s := &source{b: sv.BytesN("bytes", deep(12, 18))}
	s.sizes = []int{sv.Choose("chunk", len(s.b)+1)}
	s.with = sv.Bool("with")
	s.end = io.EOF
	d := rsocket.NewLengthBasedFrameDecoder(s)
	rest := s.b
	for i := 0; i < 5; i++ {
		raw, err := d.Read()
		if len(rest) < 3 {
			sv.Assert(err == io.EOF, "end")
			sv.Reach("end")
			return
		}
		n := int(rest[0])<<16 | int(rest[1])<<8 | int(rest[2])
		switch {
		case n == 0:
			sv.Assert(errors.Is(err, rsocket.ErrInvalidFrameLength), "zero")
			sv.Reach("zero")
			return
		case n > len(rest)-3:
			sv.Assert(err == io.EOF, "cut")
			sv.Reach("cut")
			return
		case n < frames.FrameHeaderLen:
			sv.Assert(err != nil && err != io.EOF, "short")
			sv.Reach("short")
			return
		}
		sv.Assert(err == nil, "frame")
		n = sv.Conc(n)
		sv.SameBytes(raw, rest[3:3+n], "frame")
		rest = rest[3+n:]
	}
}

// DecoderLarge reads large frames.
//
//sv:harness prop=C50 time=60 dtime=400
//sv:bound a frame of 8189, 8190, 70000, 150000, 2^22+1 or 2^24-1 (the largest there can be) bytes (first and last ones arbitrary) between two small ones, in chunks as large as the decoder takes
func DecoderLarge() {
	n := []int{8189, 8190, 70000, 150000, 1<<22 + 1, 1<<24 - 1}[sv.Choose("size", 6)]
	big := make([]byte, n)
	copy(big, sv.BytesN("first", 8))
	copy(big[n-4:], sv.BytesN("last", 4))
	a, z := sv.BytesN("a", 6), sv.BytesN("z", 7)
	s := &source{end: io.EOF}
	s.b = append(append(append(s.b, wire(a)...), wire(big)...), wire(z)...)
	d := rsocket.NewLengthBasedFrameDecoder(s)
	raw, err := d.Read()
	sv.Assert(err == nil, "before")
	sv.SameBytes(raw, a, "before")
	raw, err = d.Read()
	sv.Assert(err == nil, "large")
	sv.Assert(len(raw) == n, "large-length")
	sv.SameBytes(raw[:16], big[:16], "large-first")
	sv.SameBytes(raw[n-16:], big[n-16:], "large-last")
	raw, err = d.Read()
	sv.Assert(err == nil, "after")
	sv.SameBytes(raw, z, "after")
	_, err = d.Read()
	sv.Assert(err == io.EOF, "end")
	sv.Reach("end")
}
