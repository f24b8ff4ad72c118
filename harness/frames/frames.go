// Package frames states the wire format properties of internal/frames, internal/u24 and internal/socket.
package frames

import (
	"bytes"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/sv"
)

const hdr = frames.FrameHeaderLen

const mask31 = 0x7fffffff

func streamID() uint32 {
	id := sv.U32("stream")
	sv.Assume(id <= mask31)
	return id
}

func b2u(b bool) uint64 { return sv.Ite(b, 1, 0) }

// encode places f in a buffer of its declared size followed by guard bytes.
func encode(f frames.Frame, label string) []byte {
	size := int(f.Size())
	const guard = 8
	buf := make([]byte, size+guard)
	for i := 0; i < guard; i++ {
		buf[size+i] = 0xA5
	}
	f.Encode(buf)
	for i := 0; i < guard; i++ {
		sv.Assert(buf[size+i] == 0xA5, label+"-past-end")
	}
	// a buffer of exactly the declared size is enough
	exact := make([]byte, size)
	f.Encode(exact)
	sv.SameBytes(exact, buf[:size], label+"-size")
	return exact
}

func parse(b []byte, id uint32, t frames.FrameType, label string) *frames.FrameHeader {
	h := frames.ParseFrameHeader(b)
	sv.Assert(h.StreamID() == id, label+"-stream")
	sv.Assert(h.Type() == t, label+"-type")
	return &h
}

// the flags of the RSocket wire format
const (
	wireNext     = 1 << 5
	wireComplete = 1 << 6
	wireLease    = 1 << 6
	wireFollows  = 1 << 7
	wireResume   = 1 << 7
	wireMetadata = 1 << 8
)

// wire compares an encoded frame with the wire format, part by part.
type wire struct {
	b     []byte
	label string
}

// on starts with the header.
func on(buf []byte, id uint32, typ byte, flags uint16, label string) *wire {
	w := &wire{buf, label + "-wire"}
	w.num(uint64(id), 4, "stream")
	w.num(uint64(typ)<<10|uint64(flags), 2, "type-flags")
	return w
}

func (w *wire) num(v uint64, n int, part string) {
	sv.Assert(len(w.b) >= n, w.label+"-short")
	for i := 0; i < n; i++ {
		sv.Assert(w.b[i] == byte(v>>(8*uint(n-1-i))), w.label+"-"+part)
	}
	w.b = w.b[n:]
}

func (w *wire) raw(v []byte, part string) {
	sv.Assert(len(w.b) >= len(v), w.label+"-short")
	sv.SameBytes(w.b[:len(v)], v, w.label+"-"+part)
	w.b = w.b[len(v):]
}

// rest ends with the metadata, if there is any, and the data.
func (w *wire) rest(meta, data []byte) {
	if len(meta) > 0 {
		w.num(uint64(len(meta)), 3, "metadata-length")
		w.raw(meta, "metadata")
	}
	w.raw(data, "data")
	w.end()
}

func (w *wire) end() { sv.Assert(len(w.b) == 0, w.label+"-longer") }

func bit(on bool, b uint16) uint16 { return uint16(sv.Ite(on, uint64(b), 0)) }

// Header checks every header writer against the parser.
//
//sv:harness prop=C01
//sv:bound every 31-bit stream id, 6-bit type, 10-bit flag set; every raw 6-byte header
func Header() {
	id := streamID()
	t := frames.FrameType(sv.U8("type"))
	fl := frames.FrameFlag(sv.U16("flag"))
	sv.Assume(t < 64)
	sv.Assume(fl < 1024)

	check := func(h frames.FrameHeader, label string) {
		sv.Assert(h.StreamID() == id, label+"-stream")
		sv.Assert(h.Type() == t, label+"-type")
		sv.Assert(h.Flag() == fl, label+"-flag")
	}
	h := frames.NewFrameHeader(id, t, fl)
	check(h, "new")
	sv.Observe("n", uint64(h.Flag()))
	sv.Assert(len(h.Bytes()) == 6, "bytes-len")

	var w bytes.Buffer
	err := frames.WriteFrameHeader(&w, id, t, fl)
	sv.Assert(err == nil, "write-err")
	sv.Assert(w.Len() == 6, "write-len")
	check(frames.ParseFrameHeader(w.Bytes()), "write")

	var w2 bytes.Buffer
	n, err := h.WriteTo(&w2)
	sv.Assert(err == nil && n == 6, "writeto-len")
	check(frames.ParseFrameHeader(w2.Bytes()), "writeto")

	buf := make([]byte, 10)
	for i := range buf {
		buf[i] = 0x5A
	}
	frames.ResetFrameHeader(buf[1:], id, t, fl)
	check(frames.ParseFrameHeader(buf[1:]), "reset")
	sv.Assert(buf[0] == 0x5A && buf[7] == 0x5A && buf[8] == 0x5A && buf[9] == 0x5A, "reset-neighbours")
	sv.SameBytes(buf[1:7], h.Bytes(), "reset-bytes")

	// a header that was not written in whole is an error
	left := sv.Choose("left", 3)
	wb := &broken{left: left}
	err = frames.WriteFrameHeader(wb, id, t, fl)
	sv.Assert((err == nil) == (wb.n == 6), "write-failure")
	wb = &broken{left: left}
	_, err = h.WriteTo(wb)
	sv.Assert((err == nil) == (wb.n == 6), "writeto-failure")

	resumes := t >= frames.FrameTypeRequestResponse && t <= frames.FrameTypeError
	sv.Assert(h.Resumable() == resumes, "resumable")

	// rsocket layout
	sv.Assert(buf[1] == byte(id>>24) && buf[2] == byte(id>>16) && buf[3] == byte(id>>8) && buf[4] == byte(id), "layout-stream")
	sv.Assert(buf[5] == byte(t)<<2|byte(fl>>8) && buf[6] == byte(fl), "layout-type")
	sv.Reach("done")
}

// HeaderRaw parses arbitrary header bytes.
//
//sv:harness prop=C01
//sv:bound every 7-byte input
func HeaderRaw() {
	b := sv.BytesN("raw", 7)
	h := frames.ParseFrameHeader(b)
	want := (uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])) & mask31
	sv.Assert(h.StreamID() == want, "stream")
	sv.Assert(byte(h.Type()) == b[4]>>2, "type")
	sv.Assert(uint16(h.Flag()) == uint16(b[4]&3)<<8|uint16(b[5]), "flag")
	old := h.Type()
	b[4] ^= 0xff
	sv.Assert(h.Type() == old, "alias")
	sv.Reach("done")
}

const (
	maxMeta = 1<<24 - 1
	maxData = 1 << 26
)

// Payload is encode then decode for payload frames.
//
//sv:harness prop=C02
//sv:bound metadata 0..2^24-1 bytes, data 0..2^26 bytes, all contents, flags, stream ids
func Payload() {
	id := streamID()
	f := &frames.Payload{
		StreamID: id,
		Metadata: sv.Bytes("meta", maxMeta),
		Data:     sv.Bytes("data", maxData),
		Follows:  sv.Bool("follows"),
		Complete: sv.Bool("complete"),
		Next:     sv.Bool("next"),
	}
	buf := encode(f, "payload")
	h := parse(buf, id, frames.FrameTypePayload, "payload")
	on(buf, id, 0x0a, bit(f.Next, wireNext)|bit(f.Complete, wireComplete)|bit(f.Follows, wireFollows)|bit(len(f.Metadata) > 0, wireMetadata), "payload").rest(f.Metadata, f.Data)
	var g frames.Payload
	err := g.Decode(h, buf[hdr:])
	sv.Assert(err == nil, "decode-err")
	sv.Assert(g.StreamID == id && g.GetStreamID() == id, "stream")
	sv.SameBytes(g.Metadata, f.Metadata, "metadata")
	sv.SameBytes(g.Data, f.Data, "data")
	sv.Assert(g.Follows == f.Follows, "follows")
	sv.Assert(g.Complete == f.Complete, "complete")
	sv.Assert(g.Next == f.Next, "next")
	sv.Observe("size", uint64(f.Size()))
	sv.Reach("done")
}

var reqTypes = [4]frames.FrameType{
	frames.FrameTypeRequestResponse,
	frames.FrameTypeRequestFNF,
	frames.FrameTypeRequestStream,
	frames.FrameTypeRequestChannel,
}

// Request is encode then decode for the request frames.
//
//sv:harness prop=C02
//sv:bound the four request types, metadata 0..2^24-1 bytes, data 0..2^26 bytes, all contents, flags, counts
func Request() {
	id := streamID()
	k := sv.Choose("type", 4)
	t := reqTypes[k]
	f := &frames.RequestPayload{
		FrameType: t,
		StreamID:  id,
		Metadata:  sv.Bytes("meta", maxMeta),
		Data:      sv.Bytes("data", maxData),
		Follows:   sv.Bool("follows"),
		Complete:  sv.Bool("complete"),
		InitialN:  sv.U32("n"),
	}
	buf := encode(f, "request")
	h := parse(buf, id, t, "request")
	w := on(buf, id, byte(4+k), bit(f.Complete && t == frames.FrameTypeRequestChannel, wireComplete)|bit(f.Follows, wireFollows)|bit(len(f.Metadata) > 0, wireMetadata), "request")
	if k >= 2 {
		w.num(uint64(f.InitialN), 4, "count")
	}
	w.rest(f.Metadata, f.Data)
	var g frames.RequestPayload
	err := g.Decode(h, buf[hdr:])
	sv.Assert(err == nil, "decode-err")
	sv.Assert(g.StreamID == id && g.GetStreamID() == id, "stream")
	sv.Assert(g.FrameType == t && g.Type() == t, "type")
	sv.SameBytes(g.Metadata, f.Metadata, "metadata")
	sv.SameBytes(g.Data, f.Data, "data")
	sv.Assert(g.Follows == f.Follows, "follows")
	complete, n := true, uint32(1)
	if t == frames.FrameTypeRequestChannel {
		complete = f.Complete
	}
	if t == frames.FrameTypeRequestChannel || t == frames.FrameTypeRequestStream {
		n = f.InitialN
	}
	sv.Assert(g.Complete == complete, "complete")
	sv.Assert(g.InitialN == n, "initial-n")
	sv.Observe("size", uint64(f.Size()))
	sv.Reach("done")
}

// Setup is encode then decode for setup frames.
//
//sv:harness prop=C03
//sv:bound durations of 0..2^32-1 whole ms, token 0..65535, mime 0..255, metadata 0..2^24-1, data 0..2^26 bytes
func Setup() {
	ka, ml := sv.U32("keepalive"), sv.U32("lifetime")
	f := &frames.Setup{
		MajorVersion:         sv.U16("major"),
		MinorVersion:         sv.U16("minor"),
		TimeBetweenKeepalive: time.Duration(ka) * time.Millisecond,
		MaxLifetime:          time.Duration(ml) * time.Millisecond,
		Token:                sv.Bytes("token", 65535),
		MimeMetadata:         sv.String("mimemeta", 255),
		MimeData:             sv.String("mimedata", 255),
		Metadata:             sv.Bytes("meta", maxMeta),
		Data:                 sv.Bytes("data", maxData),
		Lease:                sv.Bool("lease"),
	}
	buf := encode(f, "setup")
	want := hdr + 14 + len(f.MimeMetadata) + len(f.MimeData) + len(f.Data)
	if len(f.Token) > 0 {
		want += 2 + len(f.Token)
	}
	if len(f.Metadata) > 0 {
		want += 3 + len(f.Metadata)
	}
	sv.Assert(len(buf) == want, "wire-size")
	h := parse(buf, 0, frames.FrameTypeSetup, "setup")
	w := on(buf, 0, 1, bit(f.Lease, wireLease)|bit(len(f.Token) > 0, wireResume)|bit(len(f.Metadata) > 0, wireMetadata), "setup")
	w.num(uint64(f.MajorVersion), 2, "major")
	w.num(uint64(f.MinorVersion), 2, "minor")
	w.num(uint64(ka), 4, "keepalive")
	w.num(uint64(ml), 4, "lifetime")
	if len(f.Token) > 0 {
		w.num(uint64(len(f.Token)), 2, "token-length")
		w.raw(f.Token, "token")
	}
	w.num(uint64(len(f.MimeMetadata)), 1, "mime-metadata-length")
	w.raw([]byte(f.MimeMetadata), "mime-metadata")
	w.num(uint64(len(f.MimeData)), 1, "mime-data-length")
	w.raw([]byte(f.MimeData), "mime-data")
	w.rest(f.Metadata, f.Data)
	var g frames.Setup
	err := g.Decode(h, buf[hdr:])
	sv.Assert(err == nil, "decode-err")
	sv.Assert(g.GetStreamID() == 0, "stream")
	sv.Assert(g.MajorVersion == f.MajorVersion && g.MinorVersion == f.MinorVersion, "version")
	sv.Assert(g.TimeBetweenKeepalive == f.TimeBetweenKeepalive, "keepalive")
	sv.Assert(g.MaxLifetime == f.MaxLifetime, "lifetime")
	sv.SameBytes(g.Token, f.Token, "token")
	sv.SameString(g.MimeMetadata, f.MimeMetadata, "mime-metadata")
	sv.SameString(g.MimeData, f.MimeData, "mime-data")
	sv.SameBytes(g.Metadata, f.Metadata, "metadata")
	sv.SameBytes(g.Data, f.Data, "data")
	sv.Assert(g.Lease == f.Lease, "lease")
	sv.Reach("done")
}

// Error is encode then decode for error frames.
//
//sv:harness prop=C03
//sv:bound text 0..2^26 bytes, every code and stream id
func Error() {
	id := streamID()
	f := &frames.Error{StreamID: id, Code: frames.ErrCode(sv.U32("code")), Data: sv.String("text", maxData)}
	buf := encode(f, "error")
	sv.Assert(len(buf) == hdr+4+len(f.Data), "wire-size")
	h := parse(buf, id, frames.FrameTypeError, "error")
	w := on(buf, id, 0x0b, 0, "error")
	w.num(uint64(f.Code), 4, "code")
	w.raw([]byte(f.Data), "text")
	w.end()
	var g frames.Error
	err := g.Decode(h, buf[hdr:])
	sv.Assert(err == nil, "decode-err")
	sv.Assert(g.StreamID == id && g.GetStreamID() == id, "stream")
	sv.Assert(g.Code == f.Code, "code")
	sv.SameString(g.Data, f.Data, "text")
	sv.Reach("done")
}

// Small is encode then decode for request-n and cancel frames.
//
//sv:harness prop=C03
//sv:bound every count and stream id
func Small() {
	id := streamID()
	if sv.Bool("which") {
		f := &frames.RequestN{StreamID: id, N: sv.U32("n")}
		buf := encode(f, "request-n")
		sv.Assert(len(buf) == hdr+4, "wire-size-n")
		h := parse(buf, id, frames.FrameTypeRequestN, "request-n")
		w := on(buf, id, 8, 0, "request-n")
		w.num(uint64(f.N), 4, "count")
		w.end()
		var g frames.RequestN
		err := g.Decode(h, buf[hdr:])
		sv.Assert(err == nil, "n-decode-err")
		sv.Assert(g.StreamID == id && g.GetStreamID() == id, "n-stream")
		sv.Assert(g.N == f.N, "n")
		sv.Reach("n")
		return
	}
	f := &frames.Cancel{StreamID: id}
	buf := encode(f, "cancel")
	sv.Assert(len(buf) == hdr, "wire-size-cancel")
	h := parse(buf, id, frames.FrameTypeCancel, "cancel")
	on(buf, id, 9, 0, "cancel").end()
	var g frames.Cancel
	err := g.Decode(h, buf[hdr:])
	sv.Assert(err == nil, "cancel-decode-err")
	sv.Assert(g.StreamID == id && g.GetStreamID() == id, "cancel-stream")
	sv.Reach("cancel")
}

// within checks that out is a part of in, as a view or a copy of its bytes at the expected place.
func tail(in, out []byte, label string) {
	sv.Assert(len(out) <= len(in), label+"-len")
	sv.SameBytes(in[len(in)-len(out):], out, label)
}

// ArbPayload decodes arbitrary bytes as payload and request frames.
//
//sv:harness prop=C04
//sv:bound inputs of 0..2^26 bytes
func ArbPayload() {
	in := sv.Bytes("in", maxData)
	var raw frames.FrameHeader
	copy(raw[:], sv.BytesN("hdr", 6))
	t := raw.Type()
	md := raw.Flag().Check(frames.FlagMetadata)
	req := sv.Bool("request")
	var metadata, data []byte
	var err error
	need := 0
	if req {
		var g frames.RequestPayload
		err = g.Decode(&raw, in)
		metadata, data = g.Metadata, g.Data
		if t == frames.FrameTypeRequestStream || t == frames.FrameTypeRequestChannel {
			need = 4
		}
	} else {
		var g frames.Payload
		err = g.Decode(&raw, in)
		metadata, data = g.Metadata, g.Data
	}
	mdLen := 0
	ok := len(in) >= need
	if ok && md {
		ok = len(in) >= need+3
		if ok {
			mdLen = int(in[need])<<16 | int(in[need+1])<<8 | int(in[need+2])
			need += 3
			ok = len(in) >= need+mdLen
		}
	}
	if !ok {
		sv.Assert(err != nil, "short-accepted")
		sv.Reach("rejected")
		return
	}
	if err != nil {
		sv.Fail("valid-rejected")
	}
	sv.SameBytes(metadata, in[need:need+mdLen], "metadata")
	sv.SameBytes(data, in[need+mdLen:], "data")
	sv.Reach("accepted")
}

// ArbOther decodes arbitrary bytes as error, request-n and cancel frames.
//
//sv:harness prop=C04
//sv:bound inputs of 0..2^26 bytes
func ArbOther() {
	in := sv.Bytes("in", maxData)
	var raw frames.FrameHeader
	copy(raw[:], sv.BytesN("hdr", 6))
	switch sv.Choose("kind", 3) {
	case 0:
		var g frames.Error
		err := g.Decode(&raw, in)
		if len(in) < 4 {
			sv.Assert(err != nil, "error-short-accepted")
			return
		}
		sv.Assert(err == nil, "error-rejected")
		sv.SameString(g.Data, string(in[4:]), "error-text")
		sv.Reach("error")
	case 1:
		var g frames.RequestN
		err := g.Decode(&raw, in)
		if len(in) < 4 {
			sv.Assert(err != nil, "n-short-accepted")
			return
		}
		sv.Assert(err == nil, "n-rejected")
		sv.Assert(g.N == uint32(in[0])<<24|uint32(in[1])<<16|uint32(in[2])<<8|uint32(in[3]), "n")
		sv.Reach("n")
	case 2:
		var g frames.Cancel
		err := g.Decode(&raw, in)
		sv.Assert(err == nil, "cancel-rejected")
		sv.Reach("cancel")
	}
}

// ArbSetup decodes arbitrary bytes as a setup frame.
//
//sv:harness prop=C04
//sv:bound inputs of 0..2^26 bytes
func ArbSetup() {
	in := sv.Bytes("in", maxData)
	var raw frames.FrameHeader
	copy(raw[:], sv.BytesN("hdr", 6))
	var g frames.Setup
	err := g.Decode(&raw, in)

	// independent account of the layout
	p := 12
	ok := len(in) >= p
	take := func(n int) int {
		at := p
		if ok && len(in)-p >= n {
			p += n
		} else {
			ok = false
		}
		return at
	}
	var tok, tokN, mm, mmN, dm, dmN, md, mdN int
	if raw.Flag().Check(frames.FlagResume) {
		at := take(2)
		if ok {
			tokN = int(in[at])<<8 | int(in[at+1])
			tok = take(tokN)
		}
	}
	if at := take(1); ok {
		mmN = int(in[at])
		mm = take(mmN)
	}
	if at := take(1); ok {
		dmN = int(in[at])
		dm = take(dmN)
	}
	if raw.Flag().Check(frames.FlagMetadata) {
		if at := take(3); ok {
			mdN = int(in[at])<<16 | int(in[at+1])<<8 | int(in[at+2])
			md = take(mdN)
		}
	}
	if !ok {
		sv.Assert(err != nil, "short-accepted")
		sv.Reach("rejected")
		return
	}
	sv.Assert(err == nil, "valid-rejected")
	sv.SameBytes(g.Token, in[tok:tok+tokN], "token")
	sv.SameString(g.MimeMetadata, string(in[mm:mm+mmN]), "mime-metadata")
	sv.SameString(g.MimeData, string(in[dm:dm+dmN]), "mime-data")
	sv.SameBytes(g.Metadata, in[md:md+mdN], "metadata")
	sv.SameBytes(g.Data, in[p:], "data")
	sv.Reach("accepted")
}

func fragCheck(parts []frames.Frame, id uint32, first frames.FrameType, isReq bool, n uint32, complete bool, md, data []byte, max uint32) {
	sv.Assert(len(parts) >= 2, "frag-count")
	mdOff, dataOff := 0, 0
	for i, p := range parts {
		sv.Assert(p.Size() <= max, "frag-size")
		sv.Assert(p.GetStreamID() == id, "frag-stream")
		var m, d []byte
		var follows, compl bool
		switch f := p.(type) {
		case *frames.RequestPayload:
			sv.Assert(isReq && i == 0, "frag-request-place")
			sv.Assert(f.FrameType == first, "frag-type")
			if first == frames.FrameTypeRequestStream || first == frames.FrameTypeRequestChannel {
				sv.Assert(f.InitialN == n, "frag-n")
			}
			m, d, follows, compl = f.Metadata, f.Data, f.Follows, f.Complete
		case *frames.Payload:
			sv.Assert(!isReq || i > 0, "frag-payload-place")
			m, d, follows, compl = f.Metadata, f.Data, f.Follows, f.Complete
		default:
			sv.Fail("frag-kind")
		}
		last := i == len(parts)-1
		sv.Assert(follows == !last, "frag-follows")
		if last {
			sv.Assert(compl == complete, "frag-complete")
		} else {
			sv.Assert(!compl, "frag-early-complete")
		}
		sv.Assert(mdOff+len(m) <= len(md), "frag-metadata-len")
		sv.Assert(dataOff+len(d) <= len(data), "frag-data-len")
		sv.SameBytes(m, md[mdOff:mdOff+len(m)], "frag-metadata")
		sv.SameBytes(d, data[dataOff:dataOff+len(d)], "frag-data")
		if len(m) > 0 {
			sv.Assert(dataOff == 0, "frag-order")
		}
		mdOff += len(m)
		dataOff += len(d)
	}
	sv.Assert(mdOff == len(md), "frag-metadata-total")
	sv.Assert(dataOff == len(data), "frag-data-total")
	sv.Reach("split")
}

func fragInputs() (md, data []byte, max uint32) {
	max = sv.U32("max")
	sv.Assume(max >= 64 && max <= 1<<24-1)
	md = sv.Bytes("meta", maxMeta)
	data = sv.Bytes("data", maxData)
	k := 4
	if sv.Deep() {
		k = 8
	}
	sv.Assume(len(md)+len(data) <= k*int(max))
	return
}

// FragPayload splits payload frames.
//
//sv:harness prop=C05 dec=2000
//sv:bound frame limit 64..2^24-1; metadata and data of any length with a total of at most 4 (deep: 8) times the limit
func FragPayload() {
	md, data, max := fragInputs()
	f := &frames.Payload{StreamID: streamID(), Metadata: md, Data: data, Complete: sv.Bool("complete"), Next: sv.Bool("next")}
	parts := f.Fragment(max)
	if f.Size() <= max {
		sv.Assert(len(parts) == 0, "split-needlessly")
		sv.Reach("whole")
		return
	}
	fragCheck(parts, f.StreamID, 0, false, 0, f.Complete, md, data, max)
}

// FragRequest splits request frames.
//
//sv:harness prop=C05 dec=2000
//sv:bound frame limit 64..2^24-1; metadata and data of any length with a total of at most 4 (deep: 8) times the limit
func FragRequest() {
	md, data, max := fragInputs()
	f := &frames.RequestPayload{
		FrameType: reqTypes[sv.Choose("type", 4)],
		StreamID:  streamID(), Metadata: md, Data: data, Complete: sv.Bool("complete"), InitialN: sv.U32("n"),
	}
	parts := f.Fragment(max)
	if f.Size() <= max {
		sv.Assert(len(parts) == 0, "split-needlessly")
		sv.Reach("whole")
		return
	}
	fragCheck(parts, f.StreamID, f.FrameType, true, f.InitialN, f.Complete, md, data, max)
}
