// Package rsocket states the properties of the TCP transport.
package rsocket

import (
	"errors"
	"io"
	"net"
	"sync"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
)

var (
	errNet    = errors.New("broken")
	errClosed = errors.New("use of closed network connection")
)

func deep(quick, deep int) int {
	if sv.Deep() {
		return deep
	}
	return quick
}

// source delivers bytes in chunks of any size and then ends.
type source struct {
	b     []byte
	pos   int
	sizes []int // of the chunks; the rest comes in one
	end   error
	with  bool // the end comes with the last bytes
	reads int
}

func (s *source) Read(p []byte) (int, error) {
	s.reads++
	sv.Assert(s.reads < 100, "endless")
	if s.pos == len(s.b) {
		return 0, s.end
	}
	n := len(s.b) - s.pos
	if len(s.sizes) > 0 {
		if n > s.sizes[0] {
			n = s.sizes[0]
		}
		s.sizes = s.sizes[1:]
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	if s.with && s.pos == len(s.b) {
		return n, s.end
	}
	return n, nil
}

// socket is a network connection.
type socket struct {
	net.Conn
	in  io.Reader
	mu  sync.Mutex
	out []byte
	err error // of writes
	// number of times it was closed
	closes int
}

func (s *socket) Read(p []byte) (int, error) { return s.in.Read(p) }

func (s *socket) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err != nil {
		return 0, s.err
	}
	s.out = append(s.out, p...)
	return len(p), nil
}

func (s *socket) Close() error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.closes++
	return nil
}

func (s *socket) SetReadDeadline(time.Time) error { return nil }
func (s *socket) SetDeadline(time.Time) error     { return nil }

func (s *socket) sent() []byte {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.out
}

// wire is the length-prefixed encoding.
func wire(b []byte) []byte {
	n := len(b)
	return append([]byte{byte(n >> 16), byte(n >> 8), byte(n)}, b...)
}

func encoded(f frames.Frame) []byte {
	b := make([]byte, f.Size())
	f.Encode(b)
	return b
}
