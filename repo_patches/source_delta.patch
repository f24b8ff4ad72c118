From 26760b3d2aaf463e46c8f3c8bedd6c19caa200c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:57 +0000
Subject: [PATCH 01/59] fix: request frames lose their follows flag when
 encoded

---
 internal/frames/request_payload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index f9095c1..a8b4ddc 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -72,6 +72,9 @@ func (f *RequestPayload) Encode(buf []byte) {
 	payload := buf
 	metadataLen := uint32(len(f.Metadata))
 	var flags FrameFlag
+	if f.Follows {
+		flags |= FlagFollow
+	}
 	if f.FrameType == FrameTypeRequestChannel && f.Complete {
 		flags |= FlagComplete
 	}
-- 
2.43.0


From 071d6f3680e098871a254479d18bf9aec2321293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 02/59] fix: fragmenting a request repeats metadata that fit
 the first fragment

---
 internal/frames/request_payload.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index a8b4ddc..b9ec325 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -161,6 +161,7 @@ func (f *RequestPayload) Fragment(maxFrameSize uint32) []Frame {
 			Complete:  false,
 			InitialN:  f.InitialN,
 		})
+		metadata = metadata[lenMd:] // sent whole
 	}
 
 	frames = splitPayloads(frames, f.StreamID, true, f.Complete, maxFrameSize, data, metadata)
-- 
2.43.0


From a81c95947fc0f700b28f02cc874d05a5de9184fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 03/59] fix: setup frames truncate keepalive and lifetime over
 4.2 s

---
 internal/frames/setup.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index cc24bf7..e0ee3d2 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -103,8 +103,8 @@ func (f *Setup) Encode(buf []byte) {
 
 	binary.BigEndian.PutUint16(payload, f.MajorVersion)
 	binary.BigEndian.PutUint16(payload[2:], f.MinorVersion)
-	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive)/uint32(time.Millisecond))
-	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime)/uint32(time.Millisecond))
+	binary.BigEndian.PutUint32(payload[4:], uint32(f.TimeBetweenKeepalive/time.Millisecond))
+	binary.BigEndian.PutUint32(payload[8:], uint32(f.MaxLifetime/time.Millisecond))
 
 	payload = payload[12:]
 
-- 
2.43.0


From 2b5afcba9837f58922293eb1f93f07150dc17008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:58 +0000
Subject: [PATCH 04/59] fix: setup frame size counts the resume token twice

---
 internal/frames/setup.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index e0ee3d2..b22955b 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -142,7 +142,7 @@ func (f *Setup) Size() uint32 {
 
 	metadataLen := uint32(len(f.Metadata))
 	tokenLen := uint32(len(f.Token))
-	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.Token)+len(f.MimeMetadata)+len(f.MimeData))
+	size += metadataLen + tokenLen + uint32(len(f.Data)+len(f.MimeMetadata)+len(f.MimeData))
 	if tokenLen > 0 {
 		size += 2
 	}
-- 
2.43.0


From 420a69719398b4e2731b2e8935b81b8e8565b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 05/59] fix: server stream ids include the reserved id 0 once
 per lap

---
 internal/socket/stream_id.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/socket/stream_id.go b/internal/socket/stream_id.go
index 974ab23..b25f404 100644
--- a/internal/socket/stream_id.go
+++ b/internal/socket/stream_id.go
@@ -20,9 +20,9 @@ type ServerStreamIDs uint64
 func (p *ServerStreamIDs) Next() (uint32, bool) {
 	// 2,4,6,8...
 	seed := atomic.AddUint64((*uint64)(p), 1)
-	v := 2 * seed
+	v := _maskStreamID & (2 * seed)
 	if v != 0 {
-		return uint32(_maskStreamID & v), seed <= _halfSeed
+		return uint32(v), seed <= _halfSeed
 	}
 	return p.Next()
 }
-- 
2.43.0


From c89818570c28c87afbb5f9ccc04bf482a0b96222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:24 +0000
Subject: [PATCH 06/59] fix: decoding truncated frames panics

---
 internal/frames/error.go           |  3 ++
 internal/frames/payload.go         | 10 +++---
 internal/frames/request_n.go       |  3 ++
 internal/frames/request_payload.go | 13 ++++----
 internal/frames/setup.go           | 53 +++++++++++++++++++++---------
 internal/frames/util.go            | 19 +++++++++++
 6 files changed, 73 insertions(+), 28 deletions(-)

diff --git a/internal/frames/error.go b/internal/frames/error.go
index f6966b6..4f480c1 100644
--- a/internal/frames/error.go
+++ b/internal/frames/error.go
@@ -21,6 +21,9 @@ func (f *Error) Type() FrameType {
 }
 
 func (f *Error) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTooShort
+	}
 	code := binary.BigEndian.Uint32(payload)
 	data := string(payload[4:])
 
diff --git a/internal/frames/payload.go b/internal/frames/payload.go
index 6a6b18b..b692db7 100644
--- a/internal/frames/payload.go
+++ b/internal/frames/payload.go
@@ -32,12 +32,10 @@ func (f *Payload) Decode(header *FrameHeader, payload []byte) error {
 	metadata := emptyBuffer
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = readMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = Payload{
diff --git a/internal/frames/request_n.go b/internal/frames/request_n.go
index 636df9d..b399ee5 100644
--- a/internal/frames/request_n.go
+++ b/internal/frames/request_n.go
@@ -20,6 +20,9 @@ func (f *RequestN) Type() FrameType {
 }
 
 func (f *RequestN) Decode(header *FrameHeader, payload []byte) error {
+	if len(payload) < 4 {
+		return ErrTooShort
+	}
 	n := binary.BigEndian.Uint32(payload)
 
 	*f = RequestN{
diff --git a/internal/frames/request_payload.go b/internal/frames/request_payload.go
index b9ec325..fdbf66d 100644
--- a/internal/frames/request_payload.go
+++ b/internal/frames/request_payload.go
@@ -38,6 +38,9 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 	complete := true
 
 	if frameType == FrameTypeRequestStream || frameType == FrameTypeRequestChannel {
+		if len(payload) < 4 {
+			return ErrTooShort
+		}
 		initialN = binary.BigEndian.Uint32(payload)
 		payload = payload[4:]
 	}
@@ -47,12 +50,10 @@ func (f *RequestPayload) Decode(header *FrameHeader, payload []byte) error {
 
 	metadata := emptyBuffer
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], payload[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		payload = payload[3:]
-		metadata = payload[:mdLength]
-		payload = payload[mdLength:]
+		var err error
+		if metadata, payload, err = readMetadata(payload); err != nil {
+			return err
+		}
 	}
 
 	*f = RequestPayload{
diff --git a/internal/frames/setup.go b/internal/frames/setup.go
index b22955b..3351559 100644
--- a/internal/frames/setup.go
+++ b/internal/frames/setup.go
@@ -35,6 +35,9 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	lease := flags.Check(FlagLease)
 	var metadata []byte
 
+	if len(payload) < 12 {
+		return ErrTooShort
+	}
 	major := binary.BigEndian.Uint16(payload)
 	minor := binary.BigEndian.Uint16(payload[2:])
 	timeBetweenKeepalive := time.Millisecond * time.Duration(binary.BigEndian.Uint32(payload[4:]))
@@ -44,27 +47,32 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	data := payload[12:]
 
 	if resume {
-		tokenLength := binary.BigEndian.Uint16(data)
-		token = data[2 : 2+tokenLength]
-		data = data[2+tokenLength:]
+		if len(data) < 2 {
+			return ErrTooShort
+		}
+		tokenLength := int(binary.BigEndian.Uint16(data))
+		data = data[2:]
+		if len(data) < tokenLength {
+			return ErrTooShort
+		}
+		token = data[:tokenLength]
+		data = data[tokenLength:]
 	}
 
-	metadataMimeLength := data[0]
-	mimeMetadata := string(data[1 : 1+metadataMimeLength])
-	data = data[1+metadataMimeLength:]
-
-	dataMimeLength := data[0]
-	mimeData := string(data[1 : 1+dataMimeLength])
-	data = data[1+dataMimeLength:]
+	mimeMetadata, data, err := readMimeType(data)
+	if err != nil {
+		return err
+	}
+	mimeData, data, err := readMimeType(data)
+	if err != nil {
+		return err
+	}
 	payload = data
 
 	if hasMetadata {
-		var mdLengthBuf [4]byte
-		copy(mdLengthBuf[1:], data[0:3])
-		mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
-		data = data[3:]
-		metadata = data[:mdLength]
-		payload = data[mdLength:]
+		if metadata, payload, err = readMetadata(data); err != nil {
+			return err
+		}
 	}
 
 	*f = Setup{
@@ -83,6 +91,19 @@ func (f *Setup) Decode(header *FrameHeader, payload []byte) error {
 	return nil
 }
 
+// readMimeType splits a mime type with a one byte length from the payload.
+func readMimeType(payload []byte) (mime string, rest []byte, err error) {
+	if len(payload) < 1 {
+		return "", nil, ErrTooShort
+	}
+	length := int(payload[0])
+	payload = payload[1:]
+	if len(payload) < length {
+		return "", nil, ErrTooShort
+	}
+	return string(payload[:length]), payload[length:], nil
+}
+
 func (f *Setup) Encode(buf []byte) {
 	tokenLen := uint16(len(f.Token))
 	metadataLen := uint32(len(f.Metadata))
diff --git a/internal/frames/util.go b/internal/frames/util.go
index d962f97..5710436 100644
--- a/internal/frames/util.go
+++ b/internal/frames/util.go
@@ -2,10 +2,29 @@ package frames
 
 import (
 	"encoding/binary"
+	"errors"
 )
 
 var emptyBuffer = []byte{}
 
+// ErrTooShort is returned when a frame ends before its declared contents.
+var ErrTooShort = errors.New("frame is too short")
+
+// readMetadata splits the length prefixed metadata from the payload.
+func readMetadata(payload []byte) (metadata, rest []byte, err error) {
+	if len(payload) < 3 {
+		return nil, nil, ErrTooShort
+	}
+	var mdLengthBuf [4]byte
+	copy(mdLengthBuf[1:], payload[0:3])
+	mdLength := binary.BigEndian.Uint32(mdLengthBuf[:])
+	payload = payload[3:]
+	if uint32(len(payload)) < mdLength {
+		return nil, nil, ErrTooShort
+	}
+	return payload[:mdLength], payload[mdLength:], nil
+}
+
 func readString(payload []byte) (string, []byte) {
 	strLen := binary.BigEndian.Uint16(payload[:2])
 	payload = payload[2:]
-- 
2.43.0


From 3b423fb78a4c93b68918a84944e859c63abfe475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 07/59] fix: msgpack sizer overestimates 255 byte arrays

---
 msgpack/sizer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index ad88b50..8964498 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -118,7 +118,7 @@ func (s *Sizer) WriteArraySize(length uint32) {
 }
 
 func (s *Sizer) writeBinLength(length uint32) {
-	if length < math.MaxUint8 {
+	if length <= math.MaxUint8 {
 		s.length += 1
 	} else if length <= math.MaxUint16 {
 		s.length += 2
-- 
2.43.0


From 77e789c51ae4b1d0d55111e518c2c7656c681c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:25 +0000
Subject: [PATCH 08/59] fix: msgpack buffer check wraps on large lengths

---
 msgpack/data_reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index 4240605..eb2c84b 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -240,7 +240,7 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	if d.err != nil {
 		return d.err
 	}
-	if d.byteOffset+length > uint32(len(d.buffer)) {
+	if uint64(d.byteOffset)+uint64(length) > uint64(len(d.buffer)) {
 		d.err = ErrRange
 		return ErrRange
 	}
-- 
2.43.0


From 7c08ebb1565fbefc522d90dc00366b67704daa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 09/59] fix: msgpack generic nil is written twice

---
 msgpack/encoder.go | 3 ---
 msgpack/sizer.go   | 3 ---
 2 files changed, 6 deletions(-)

diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 634bf9c..391570a 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -315,9 +315,6 @@ func (e *Encoder) WriteMapSize(length uint32) {
 }
 
 func (e *Encoder) WriteAny(value any) {
-	if value == nil {
-		e.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		e.WriteNil()
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index 8964498..e7c3b0a 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -279,9 +279,6 @@ func (s *Sizer) WriteNillableFloat64(value *float64) {
 }
 
 func (s *Sizer) WriteAny(value any) {
-	if value == nil {
-		s.WriteNil()
-	}
 	switch v := value.(type) {
 	case nil:
 		s.WriteNil()
-- 
2.43.0


From e192f05429b142521cc63ee70f654249bbc57656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 10/59] fix: msgpack generic timestamps are sized but neither
 written nor read

---
 msgpack/decoder.go | 9 ++++++++-
 msgpack/encoder.go | 8 ++++++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 02b0b29..f4ddf24 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -393,6 +393,10 @@ func (d *Decoder) ReadTime() (time.Time, error) {
 	}
 
 	d.reader.Discard(1)
+	return d.readTimeExt(prefix)
+}
+
+func (d *Decoder) readTimeExt(prefix byte) (time.Time, error) {
 	extID, extLen, err := d.extHeader(prefix)
 	if err != nil {
 		return time.Time{}, err
@@ -823,9 +827,12 @@ func (d *Decoder) ReadAny() (any, error) {
 			return nil, err
 		}
 		return d.reader.GetBytes(binLen)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		return d.readTimeExt(prefix)
 	}
 
-	return nil, ReadError{"bad value for bool"}
+	return nil, ReadError{"bad prefix for any"}
 }
 
 func (d *Decoder) readArray(array []any) error {
diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 391570a..5184784 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -348,6 +348,8 @@ func (e *Encoder) WriteAny(value any) {
 		e.WriteFloat64(v)
 	case string:
 		e.WriteString(v)
+	case time.Time:
+		e.WriteTime(v)
 	case []byte:
 		e.WriteByteArray(v)
 	case []interface{}:
@@ -362,6 +364,12 @@ func (e *Encoder) WriteAny(value any) {
 		for _, v := range v {
 			e.WriteString(v)
 		}
+	case []time.Time:
+		size := uint32(len(v))
+		e.WriteArraySize(size)
+		for _, v := range v {
+			e.WriteTime(v)
+		}
 	case []bool:
 		size := uint32(len(v))
 		e.WriteArraySize(size)
-- 
2.43.0


From 2dc27a97d79102e94d37bb6b03293de6fd1f1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:26 +0000
Subject: [PATCH 11/59] fix: msgpack extension lengths are raw integers

---
 msgpack/decoder.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index f4ddf24..64f63cf 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -896,14 +896,13 @@ func (d *Decoder) parseExtLen(c byte) (uint32, error) {
 	case FormatFixExt16:
 		return 16, nil
 	case FormatExt8:
-		n, err := d.ReadUint8()
+		n, err := d.reader.GetUint8()
 		return uint32(n), err
 	case FormatExt16:
-		n, err := d.ReadUint16()
+		n, err := d.reader.GetUint16()
 		return uint32(n), err
 	case FormatExt32:
-		n, err := d.ReadUint32()
-		return n, err
+		return d.reader.GetUint32()
 	default:
 		return 0, ReadError{"msgpack: invalid code=" + strconv.FormatUint(uint64(c), 16) + " decoding ext len"}
 	}
-- 
2.43.0


From ff090b2a7d8eb8c948402426affd1bf5889743af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:27 +0000
Subject: [PATCH 12/59] fix: msgpack skip miscounts extensions and large maps,
 ignores truncation and recurses without bound

---
 msgpack/decoder.go | 156 ++++++++++++++++++---------------------------
 1 file changed, 61 insertions(+), 95 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 64f63cf..35ff39c 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -597,119 +597,85 @@ func (d *Decoder) ReadMapSize() (uint32, error) {
 }
 
 func (d *Decoder) Skip() error {
-	numberOfObjectsToDiscard, err := d.getSize()
-	if err != nil {
-		return err
-	}
-
-	for numberOfObjectsToDiscard > 0 {
-		err = d.Skip() // Skip recursively
+	for remaining := uint64(1); remaining > 0; remaining-- {
+		nested, err := d.skipOne()
 		if err != nil {
 			return err
 		}
-		numberOfObjectsToDiscard--
+		remaining += nested
 	}
 	return nil
 }
 
-func (d *Decoder) getSize() (uint32, error) {
+// skipOne discards one object except for the objects nested in it,
+// which it counts.
+func (d *Decoder) skipOne() (uint64, error) {
 	leadByte, err := d.reader.GetUint8()
 	if err != nil {
 		return 0, err
 	}
-	var objectsToDiscard uint32 = 0
 
 	if isNegativeFixedInt(leadByte) || isFixedInt(leadByte) {
-		// Noop, will just discard the leadbyte
+		return 0, nil // just discard the leadbyte
 	} else if isFixedString(leadByte) {
-		strLen := uint32(leadByte & 0x1f)
-		d.reader.Discard(strLen)
+		return 0, d.reader.Discard(uint32(leadByte & 0x1f))
 	} else if isFixedArray(leadByte) {
-		objectsToDiscard = uint32(leadByte & FormatFourLeastSigBitsInByte)
+		return uint64(leadByte & FormatFourLeastSigBitsInByte), nil
 	} else if isFixedMap(leadByte) {
-		objectsToDiscard = 2 * uint32(leadByte&FormatFourLeastSigBitsInByte)
-	} else {
-		switch leadByte {
-		case FormatNil, FormatTrue, FormatFalse:
-		case FormatString8, FormatBin8:
-			length, err := d.reader.GetUint8()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(uint32(length))
-			if err != nil {
-				return 0, err
-			}
-		case FormatString16, FormatBin16:
-			length, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(uint32(length))
-			if err != nil {
-				return 0, err
-			}
-		case FormatString32, FormatBin32:
-			length, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			err = d.reader.Discard(length)
-			if err != nil {
-				return 0, err
-			}
-		case FormatFloat32:
-			d.reader.Discard(4)
-		case FormatFloat64:
-			d.reader.Discard(8)
-		case FormatUint8, FormatInt8:
-			d.reader.Discard(1)
-		case FormatUint16, FormatInt16:
-			d.reader.Discard(2)
-		case FormatUint32, FormatInt32:
-			d.reader.Discard(4)
-		case FormatUint64, FormatInt64:
-			d.reader.Discard(8)
-		case FormatFixExt1:
-			d.reader.Discard(1)
-		case FormatFixExt2:
-			d.reader.Discard(3)
-		case FormatFixExt4:
-			d.reader.Discard(5)
-		case FormatFixExt8:
-			d.reader.Discard(9)
-		case FormatFixExt16:
-			d.reader.Discard(17)
-		case FormatArray16:
-			v, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = uint32(v)
-		case FormatArray32:
-			v, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = v
-		case FormatMap16:
-			v, err := d.reader.GetUint16()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = 2 * uint32(v)
-		case FormatMap32:
-			v, err := d.reader.GetUint32()
-			if err != nil {
-				return 0, err
-			}
-			objectsToDiscard = 2 * v
-		default:
-			return 0, ReadError{"bad prefix"}
-		}
+		return 2 * uint64(leadByte&FormatFourLeastSigBitsInByte), nil
 	}
 
-	return objectsToDiscard, nil
+	switch leadByte {
+	case FormatNil, FormatTrue, FormatFalse:
+		return 0, nil
+	case FormatString8, FormatBin8:
+		length, err := d.reader.GetUint8()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(uint32(length))
+	case FormatString16, FormatBin16:
+		length, err := d.reader.GetUint16()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(uint32(length))
+	case FormatString32, FormatBin32:
+		length, err := d.reader.GetUint32()
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(length)
+	case FormatUint8, FormatInt8:
+		return 0, d.reader.Discard(1)
+	case FormatUint16, FormatInt16:
+		return 0, d.reader.Discard(2)
+	case FormatUint32, FormatInt32, FormatFloat32:
+		return 0, d.reader.Discard(4)
+	case FormatUint64, FormatInt64, FormatFloat64:
+		return 0, d.reader.Discard(8)
+	case FormatFixExt1, FormatFixExt2, FormatFixExt4, FormatFixExt8, FormatFixExt16,
+		FormatExt8, FormatExt16, FormatExt32:
+		_, length, err := d.extHeader(leadByte)
+		if err != nil {
+			return 0, err
+		}
+		return 0, d.reader.Discard(length)
+	case FormatArray16:
+		v, err := d.reader.GetUint16()
+		return uint64(v), err
+	case FormatArray32:
+		v, err := d.reader.GetUint32()
+		return uint64(v), err
+	case FormatMap16:
+		v, err := d.reader.GetUint16()
+		return 2 * uint64(v), err
+	case FormatMap32:
+		v, err := d.reader.GetUint32()
+		return 2 * uint64(v), err
+	default:
+		return 0, ReadError{"bad prefix"}
+	}
 }
 
 func (d *Decoder) ReadAny() (any, error) {
-- 
2.43.0


From 17ff27e128bf5dd37a50d43a330f662de3809b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 13/59] fix: msgpack collections allocate claimed lengths and
 nest without bound

---
 msgpack/decoder.go | 81 ++++++++++++++++++++++++++++++----------------
 msgpack/utils.go   |  4 +--
 2 files changed, 55 insertions(+), 30 deletions(-)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index 35ff39c..e29e75d 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -9,6 +9,22 @@ import (
 
 type Decoder struct {
 	reader DataReader
+	depth  int
+}
+
+const (
+	// maxDepth is how deeply generic values can be nested.
+	maxDepth = 10000
+	// maxInitialCapacity bounds what is allocated for a collection
+	// before any of its elements has been read.
+	maxInitialCapacity = 16
+)
+
+func initialCapacity(length uint32) int {
+	if length > maxInitialCapacity {
+		return maxInitialCapacity
+	}
+	return int(length)
 }
 
 // Ensure `*Decoder` implements `Reader`.
@@ -694,17 +710,11 @@ func (d *Decoder) ReadAny() (any, error) {
 	}
 
 	if isFixedArray(prefix) {
-		aryLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		ary := make([]any, aryLen)
-		err := d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	if isFixedMap(prefix) {
-		mapLen := uint32(prefix & FormatFourLeastSigBitsInByte)
-		m := make(map[any]any, mapLen)
-		err := d.readMap(m, mapLen)
-		return m, err
+		return d.readMap(uint32(prefix & FormatFourLeastSigBitsInByte))
 	}
 
 	switch prefix {
@@ -748,33 +758,25 @@ func (d *Decoder) ReadAny() (any, error) {
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(uint32(v))
 	case FormatArray32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		ary := make([]any, v)
-		err = d.readArray(ary)
-		return ary, err
+		return d.readArray(v)
 	case FormatMap16:
 		v, err := d.reader.GetUint16()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, uint32(v))
-		return m, err
+		return d.readMap(uint32(v))
 	case FormatMap32:
 		v, err := d.reader.GetUint32()
 		if err != nil {
 			return nil, err
 		}
-		m := make(map[any]any, v)
-		err = d.readMap(m, v)
-		return m, err
+		return d.readMap(v)
 	case FormatBin8:
 		binLen, err := d.reader.GetUint8()
 		if err != nil {
@@ -801,32 +803,55 @@ func (d *Decoder) ReadAny() (any, error) {
 	return nil, ReadError{"bad prefix for any"}
 }
 
-func (d *Decoder) readArray(array []any) error {
-	for i := 0; i < len(array); i++ {
+func (d *Decoder) readArray(length uint32) ([]any, error) {
+	if err := d.enter(); err != nil {
+		return nil, err
+	}
+	defer d.leave()
+	array := make([]any, 0, initialCapacity(length))
+	for i := uint32(0); i < length; i++ {
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
-		array[i] = value
+		array = append(array, value)
 	}
-	return nil
+	return array, nil
 }
 
-func (d *Decoder) readMap(m map[any]any, length uint32) error {
+func (d *Decoder) readMap(length uint32) (map[any]any, error) {
+	if err := d.enter(); err != nil {
+		return nil, err
+	}
+	defer d.leave()
+	m := make(map[any]any, initialCapacity(length))
 	for i := uint32(0); i < length; i++ {
 		key, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
 		value, err := d.ReadAny()
 		if err != nil {
-			return err
+			return nil, err
 		}
 		m[key] = value
 	}
+	return m, nil
+}
+
+// enter and leave bound the nesting of generic values.
+func (d *Decoder) enter() error {
+	if d.depth >= maxDepth {
+		return ReadError{"value is nested too deeply"}
+	}
+	d.depth++
 	return nil
 }
 
+func (d *Decoder) leave() {
+	d.depth--
+}
+
 func (d *Decoder) extHeader(c byte) (int8, uint32, error) {
 	extLen, err := d.parseExtLen(c)
 	if err != nil {
diff --git a/msgpack/utils.go b/msgpack/utils.go
index e553ab7..63b0b69 100644
--- a/msgpack/utils.go
+++ b/msgpack/utils.go
@@ -18,7 +18,7 @@ func ReadSlice[T any](reader Reader, valF func(reader Reader) (T, error)) ([]T,
 	if err != nil {
 		return nil, err
 	}
-	request := make([]T, 0, listSize)
+	request := make([]T, 0, initialCapacity(listSize))
 	for listSize > 0 {
 		listSize--
 		item, err := valF(reader)
@@ -50,7 +50,7 @@ func ReadMap[K constraints.Ordered, V any](reader Reader,
 	if err != nil {
 		return nil, err
 	}
-	m := make(map[K]V, mapSize)
+	m := make(map[K]V, initialCapacity(mapSize))
 	for mapSize > 0 {
 		mapSize--
 		key, err := keyF(reader)
-- 
2.43.0


From 02381e7f39fc99af40c29a3ab9e1e01e4fe1a8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 14/59] fix: msgpack generic maps with unhashable keys panic

---
 msgpack/decoder.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/msgpack/decoder.go b/msgpack/decoder.go
index e29e75d..20dbb16 100644
--- a/msgpack/decoder.go
+++ b/msgpack/decoder.go
@@ -834,6 +834,10 @@ func (d *Decoder) readMap(length uint32) (map[any]any, error) {
 		if err != nil {
 			return nil, err
 		}
+		switch key.(type) {
+		case []any, map[any]any, []byte:
+			return nil, ReadError{"bad type for map key"}
+		}
 		m[key] = value
 	}
 	return m, nil
-- 
2.43.0


From 5a1c6e460c53997a09215f5a41d19eaf2e40df5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 15/59] fix: msgpack generic writes drop unsupported values and
 codec errors

---
 msgpack/data_reader.go |  7 +++++++
 msgpack/encoder.go     |  6 +++++-
 msgpack/sizer.go       | 21 +++++++++++++++++++--
 3 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/msgpack/data_reader.go b/msgpack/data_reader.go
index eb2c84b..af03e10 100644
--- a/msgpack/data_reader.go
+++ b/msgpack/data_reader.go
@@ -248,6 +248,13 @@ func (d *DataReader) checkBufferSize(length uint32) error {
 	return nil
 }
 
+// fail records err unless there is an earlier error.
+func (d *DataReader) fail(err error) {
+	if d.err == nil {
+		d.err = err
+	}
+}
+
 func (d *DataReader) Err() error {
 	return d.err
 }
diff --git a/msgpack/encoder.go b/msgpack/encoder.go
index 5184784..5af3b62 100644
--- a/msgpack/encoder.go
+++ b/msgpack/encoder.go
@@ -319,7 +319,9 @@ func (e *Encoder) WriteAny(value any) {
 	case nil:
 		e.WriteNil()
 	case Codec:
-		v.Encode(e)
+		if err := v.Encode(e); err != nil {
+			e.reader.fail(err)
+		}
 	case int:
 		e.WriteInt64(int64(v))
 	case int8:
@@ -523,6 +525,8 @@ func (e *Encoder) WriteAny(value any) {
 			e.WriteAny(k)
 			e.WriteAny(v)
 		}
+	default:
+		e.reader.fail(errUnsupported(value))
 	}
 }
 
diff --git a/msgpack/sizer.go b/msgpack/sizer.go
index e7c3b0a..b2a247a 100644
--- a/msgpack/sizer.go
+++ b/msgpack/sizer.go
@@ -1,12 +1,14 @@
 package msgpack
 
 import (
+	"fmt"
 	"math"
 	"time"
 )
 
 type Sizer struct {
 	length uint32
+	err    error
 }
 
 // Ensure `*Sizer` implements `Writer`.
@@ -283,7 +285,9 @@ func (s *Sizer) WriteAny(value any) {
 	case nil:
 		s.WriteNil()
 	case Codec:
-		v.Encode(s)
+		if err := v.Encode(s); err != nil {
+			s.fail(err)
+		}
 	case int:
 		s.WriteInt64(int64(v))
 	case int8:
@@ -487,9 +491,22 @@ func (s *Sizer) WriteAny(value any) {
 			s.WriteAny(k)
 			s.WriteAny(v)
 		}
+	default:
+		s.fail(errUnsupported(value))
+	}
+}
+
+// fail records err unless there is an earlier error.
+func (s *Sizer) fail(err error) {
+	if s.err == nil {
+		s.err = err
 	}
 }
 
+func errUnsupported(value any) error {
+	return fmt.Errorf("msgpack: unsupported type %T", value)
+}
+
 func (s *Sizer) Err() error {
-	return nil
+	return s.err
 }
-- 
2.43.0


From 05c406c392e4b84d8be01c63418aab7d76395373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:16 +0000
Subject: [PATCH 16/59] fix: nillable conversions dereference absent values

---
 msgpack/convert/convert.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/msgpack/convert/convert.go b/msgpack/convert/convert.go
index 455fc93..3956350 100644
--- a/msgpack/convert/convert.go
+++ b/msgpack/convert/convert.go
@@ -71,8 +71,11 @@ func String[T ~string](value string, err error) (T, error) {
 }
 
 func NillableString[T ~string](value *string, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func Bool[T ~bool](value bool, err error) (T, error) {
@@ -80,8 +83,11 @@ func Bool[T ~bool](value bool, err error) (T, error) {
 }
 
 func NillableBool[T ~bool](value *bool, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 type numberic interface {
@@ -95,8 +101,11 @@ func Numeric[T, I numberic](value I, err error) (T, error) {
 }
 
 func NillableNumeric[T, I numberic](value *I, err error) (*T, error) {
+	if value == nil || err != nil {
+		return nil, err
+	}
 	ret := T(*value)
-	return &ret, err
+	return &ret, nil
 }
 
 func ByteArray[T, I ~[]byte](value I, err error) (T, error) {
-- 
2.43.0


From 3e74f0c9e5c17bea192f077f6b4c02221dbcc29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:31 +0000
Subject: [PATCH 17/59] fix: encoding a codec ignores its error

---
 msgpack/codec.go       | 6 ++++++
 transform/transform.go | 9 ++++-----
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/msgpack/codec.go b/msgpack/codec.go
index 245a220..a9656cd 100644
--- a/msgpack/codec.go
+++ b/msgpack/codec.go
@@ -19,11 +19,17 @@ func ToBytes(codec Codec) ([]byte, error) {
 	if err := codec.Encode(&sizer); err != nil {
 		return nil, err
 	}
+	if err := sizer.Err(); err != nil {
+		return nil, err
+	}
 	buffer := make([]byte, sizer.Len())
 	encoder := NewEncoder(buffer)
 	if err := codec.Encode(&encoder); err != nil {
 		return nil, err
 	}
+	if err := encoder.Err(); err != nil {
+		return nil, err
+	}
 	return buffer, nil
 }
 
diff --git a/transform/transform.go b/transform/transform.go
index 886125c..9b18f98 100644
--- a/transform/transform.go
+++ b/transform/transform.go
@@ -324,11 +324,10 @@ func CodecDecode(raw payload.Payload, value msgpack.Codec) error {
 }
 
 func CodecEncode(value msgpack.Codec) (payload.Payload, error) {
-	sizer := msgpack.NewSizer()
-	value.Encode(&sizer)
-	buf := make([]byte, sizer.Len())
-	encoder := msgpack.NewEncoder(buf)
-	value.Encode(&encoder)
+	buf, err := msgpack.ToBytes(value)
+	if err != nil {
+		return nil, err
+	}
 	return payload.New(buf), nil
 }
 
-- 
2.43.0


From a12659d1b11bd8b3e0e9c11a33586d23489fd3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:56 +0000
Subject: [PATCH 18/59] fix: parsing a malformed operation table panics or
 allocates without bound

---
 operations/operatons.go | 62 ++++++++++++++++++++++++++++++-----------
 1 file changed, 46 insertions(+), 16 deletions(-)

diff --git a/operations/operatons.go b/operations/operatons.go
index bca2fb2..edf0fbb 100644
--- a/operations/operatons.go
+++ b/operations/operatons.go
@@ -63,47 +63,77 @@ func (d Direction) String() string {
 var Magic = []byte{0x00, 0x77, 0x72, 0x73}
 var ErrInvalidMagicNumber = errors.New("invalid magic number")
 
+// minOperationSize is the size of an operation with empty strings.
+const minOperationSize = 12
+
+var errTruncated = errors.New("operation table is truncated")
+
 func FromBytes(buf []byte) (Table, error) {
-	if !bytes.Equal(buf[0:4], Magic) {
+	if !bytes.HasPrefix(buf, Magic) {
 		return nil, ErrInvalidMagicNumber
 	}
 	buf = buf[4:]
 
 	// Read version.
+	if len(buf) < 6 {
+		return nil, errTruncated
+	}
 	version := binary.BigEndian.Uint16(buf)
 	if version != 1 {
-		return nil, errors.New("Unknown operation table version %d" + strconv.Itoa(int(version)))
+		return nil, errors.New("Unknown operation table version " + strconv.Itoa(int(version)))
 	}
 	buf = buf[2:]
 	numOps := binary.BigEndian.Uint32(buf)
-	operations := make(Table, numOps)
 	buf = buf[4:]
-	for i := 0; i < int(numOps); i++ {
+	if uint64(numOps)*minOperationSize > uint64(len(buf)) {
+		return nil, errTruncated
+	}
+	operations := make(Table, numOps)
+	for i := range operations {
+		if len(buf) < 6 {
+			return nil, errTruncated
+		}
 		opType := RequestType(buf[0])
 		dir := Direction(buf[1])
 		id := binary.BigEndian.Uint32(buf[2:6])
-		nsLen := binary.BigEndian.Uint16(buf[6:8])
-		buf = buf[8:]
-		ns := string(buf[:nsLen])
-		buf = buf[nsLen:]
-		opLen := binary.BigEndian.Uint16(buf[0:2])
-		buf = buf[2:]
-		op := string(buf[:opLen])
-		buf = buf[opLen:]
+		ns, rest, ok := cut(buf[6:])
+		if !ok {
+			return nil, errTruncated
+		}
+		op, rest, ok := cut(rest)
+		if !ok {
+			return nil, errTruncated
+		}
+		_, rest, ok = cut(rest) // Reserved
+		if !ok {
+			return nil, errTruncated
+		}
+		buf = rest
 		operations[i] = Operation{
 			Type:      opType,
 			Direction: dir,
 			Index:     id,
-			Namespace: ns,
-			Operation: op,
+			Namespace: string(ns),
+			Operation: string(op),
 		}
-		reservedLen := binary.BigEndian.Uint16(buf)
-		buf = buf[2+reservedLen:] // Reserved
 	}
 
 	return operations, nil
 }
 
+// cut splits buf after a field prefixed with its 16 bit length.
+func cut(buf []byte) (field, rest []byte, ok bool) {
+	if len(buf) < 2 {
+		return nil, nil, false
+	}
+	length := int(binary.BigEndian.Uint16(buf))
+	buf = buf[2:]
+	if len(buf) < length {
+		return nil, nil, false
+	}
+	return buf[:length], buf[length:], true
+}
+
 func (t Table) ToBytes() []byte {
 	size := uint32(10)
 	for _, op := range t {
-- 
2.43.0


From 4e44c30b3eea7b6c5b176e66ef7dcee3bb320039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:56 +0000
Subject: [PATCH 19/59] fix: port messages confuse next and complete

---
 invoke/portio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/invoke/portio.go b/invoke/portio.go
index 0f787ce..44e7e80 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -71,7 +71,7 @@ func (f Flags) String() string {
 
 // All frame flags
 const (
-	FlagNext Flags = 1
+	FlagNext Flags = 1 << iota
 	FlagComplete
 )
 
-- 
2.43.0


From 8af6563254ec225f8fe9260fdaef19e4b4400504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:56 +0000
Subject: [PATCH 20/59] fix: decoding a truncated port message panics

---
 invoke/portio.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/invoke/portio.go b/invoke/portio.go
index 44e7e80..6e19292 100644
--- a/invoke/portio.go
+++ b/invoke/portio.go
@@ -2,9 +2,12 @@ package invoke
 
 import (
 	"encoding/binary"
+	"errors"
 	"strings"
 )
 
+var errTruncated = errors.New("port message is truncated")
+
 type PortIO struct {
 	Port     string
 	Data     []byte
@@ -13,12 +16,18 @@ type PortIO struct {
 }
 
 func (f *PortIO) Decode(data []byte) error {
+	if len(data) < 3 {
+		return errTruncated
+	}
 	flags := Flags(data[0])
 	complete := flags.Check(FlagComplete)
 	next := flags.Check(FlagNext)
 	data = data[1:]
 	portLength := binary.BigEndian.Uint16(data)
 	data = data[2:]
+	if len(data) < int(portLength) {
+		return errTruncated
+	}
 	port := string(data[:portLength])
 	data = data[portLength:]
 
-- 
2.43.0


From b58a0104568a8e495237b37b45dffc3d2ddb8491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:56 +0000
Subject: [PATCH 21/59] fix: looking up a stale instance handle can crash the
 garbage collector

---
 invoke/instances.go | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/invoke/instances.go b/invoke/instances.go
index a32508e..6db6e5b 100644
--- a/invoke/instances.go
+++ b/invoke/instances.go
@@ -14,24 +14,23 @@ var ErrNoInstance = errors.New("no instance is active for this pointer")
 
 type LiveInstances[T any] struct {
 	mu        sync.RWMutex
-	instances map[*Ptr[T]]struct{}
+	instances map[uint64]*Ptr[T]
 }
 
 func NewLiveInstances[T any]() *LiveInstances[T] {
 	return &LiveInstances[T]{
-		instances: make(map[*Ptr[T]]struct{}),
+		instances: make(map[uint64]*Ptr[T]),
 	}
 }
 
 func (t *LiveInstances[T]) Get(id uint64) (inst T, ok bool) {
 	t.mu.RLock()
 	defer t.mu.RUnlock()
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
-	_, ok = t.instances[ptr]
+	ptr, ok := t.instances[id]
 	if ok {
 		inst = ptr.Ptr
 	}
-	return
+	return inst, ok
 }
 
 func (t *LiveInstances[T]) Put(inst T) uint64 {
@@ -39,17 +38,17 @@ func (t *LiveInstances[T]) Put(inst T) uint64 {
 	handle := uint64(uintptr(unsafe.Pointer(ptr)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	t.instances[ptr] = struct{}{}
+	t.instances[handle] = ptr
 	return handle
 }
 
 func (t *LiveInstances[T]) Remove(id uint64) (inst T, ok bool) {
-	ptr := (*Ptr[T])(unsafe.Pointer(uintptr(id)))
 	t.mu.Lock()
 	defer t.mu.Unlock()
-	if _, ok = t.instances[ptr]; ok {
+	ptr, ok := t.instances[id]
+	if ok {
 		inst = ptr.Ptr
-		delete(t.instances, ptr)
+		delete(t.instances, id)
 	}
-	return
+	return inst, ok
 }
-- 
2.43.0


From 224db0cf7de72758332551ad4365eb241bd95d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:57 +0000
Subject: [PATCH 22/59] fix: instances of types without size share one handle

---
 invoke/instances.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/invoke/instances.go b/invoke/instances.go
index 6db6e5b..faf0f4e 100644
--- a/invoke/instances.go
+++ b/invoke/instances.go
@@ -8,6 +8,8 @@ import (
 
 type Ptr[T any] struct {
 	Ptr T
+	// Instances without size would all have the same address.
+	_ byte
 }
 
 var ErrNoInstance = errors.New("no instance is active for this pointer")
-- 
2.43.0


From 5566d7f34ef0639fa116ea8d74ae3eb0d88ec437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:57 +0000
Subject: [PATCH 23/59] fix: stream lookup keeps removed streams and reads
 unlocked

---
 proxy/lookup.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index b5e4791..3a3d686 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -33,6 +33,9 @@ func (l *Lookup) IsEmpty() bool {
 }
 
 func (l *Lookup) Get(id uint32) (Stream, bool) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
 	if n := l.find(id); n != nil {
 		return n.stream, true
 	}
@@ -77,9 +80,13 @@ func (l *Lookup) Remove(id uint32) {
 
 	if prevNode != nil {
 		prevNode.next = nodeToDelete.next
+	} else {
+		l.head = nextNode
 	}
 	if nextNode != nil {
 		nextNode.prev = nodeToDelete.prev
+	} else {
+		l.tail = prevNode
 	}
 }
 
-- 
2.43.0


From db0f3472f7fa3264422e9d3266b505a2939a4863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 24/59] fix: constant monos never notify completion

---
 rx/mono/mono.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 002c985..047ccc6 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -42,6 +42,9 @@ func (e errorSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -74,6 +77,9 @@ func (j justSingle[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 	if sub.OnSuccess != nil {
 		sub.OnSuccess(j.value)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalComplete)
+	}
 	return j
 }
 
-- 
2.43.0


From 7500bdf6ce56cdd8dc6ef56e47f45f5022c3b239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 25/59] fix: mono listeners registered while it ends get the
 wrong signal

---
 rx/mono/mono.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 047ccc6..3e8d822 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -165,6 +165,7 @@ func (s *subscriber[T]) Success(value T) {
 		return
 	}
 	s.value = value
+	s.signal = rx.SignalComplete
 	s.closed = true
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
@@ -177,6 +178,7 @@ func (s *subscriber[T]) Error(err error) {
 		return
 	}
 	s.err = err
+	s.signal = rx.SignalError
 	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
@@ -185,7 +187,6 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
@@ -198,6 +199,7 @@ func (s *subscriber[T]) Cancel() {
 	if s.closed {
 		return
 	}
+	s.signal = rx.SignalCancel
 	s.closed = true
 	s.finally(rx.SignalCancel)
 }
-- 
2.43.0


From 489ff2e8ccf80cce7cbd3bf8b476785abfee78b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:05 +0000
Subject: [PATCH 26/59] fix: mono processor forgets its first outcome before
 the subscription

---
 rx/mono/processor.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index a7bb35d..1d02282 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -29,7 +29,7 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 func (p *ProcessorImpl[T]) Success(value T) {
 	if p.sink != nil {
 		p.sink.Success(value)
-	} else {
+	} else if p.success == nil && p.err == nil {
 		p.success = &value
 	}
 }
@@ -37,7 +37,7 @@ func (p *ProcessorImpl[T]) Success(value T) {
 func (p *ProcessorImpl[T]) Error(err error) {
 	if p.sink != nil {
 		p.sink.Error(err)
-	} else {
+	} else if p.success == nil && p.err == nil {
 		p.err = err
 	}
 }
-- 
2.43.0


From 14d7b75f629202c8d608add8de2456234fc6e426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:37 +0000
Subject: [PATCH 27/59] fix: monos lose outcomes signalled by another goroutine

---
 rx/mono/mono.go             | 44 +++++++++++++++++++++++++++----------
 rx/mono/mono_host.go        | 29 +++++++++++++++++++++---
 rx/mono/mono_webassembly.go |  5 +++++
 rx/mono/processor.go        | 35 ++++++++++++++++-------------
 4 files changed, 83 insertions(+), 30 deletions(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index 3e8d822..daa62c5 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -106,6 +106,7 @@ func Create[T any](source Source[T]) Mono[T] {
 
 type mono[T any] struct {
 	source     Source[T]
+	mu         mutex // guards subscriber, its outcome and callbacks
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -118,7 +119,9 @@ func (m *mono[T]) Subscribe(sub Subscribe[T]) Mono[T] {
 		doOnSubscribe: sub.OnRequest,
 		doFinally:     sub.Finally,
 	}
+	m.mu.Lock()
 	m.subscriber = &wrapper
+	m.mu.Unlock()
 	m.source(&wrapper)
 	return m
 }
@@ -132,15 +135,21 @@ func (m *mono[T]) Notify(fn rx.FnFinally) {
 	// 	m.subscriber = &wrapper
 	// 	m.source(&wrapper)
 	// }
+	m.mu.Lock()
 	if m.subscriber != nil && m.subscriber.closed {
-		fn(m.subscriber.signal)
+		signal := m.subscriber.signal
+		m.mu.Unlock()
+		fn(signal)
 		return
 	}
 
 	m.callbacks = append(m.callbacks, fn)
+	m.mu.Unlock()
 }
 
 func (m *mono[T]) Get() (ret T, err error) {
+	m.mu.Lock()
+	defer m.mu.Unlock()
 	if !m.subscriber.closed {
 		panic("mono: Get called before completion")
 	}
@@ -160,13 +169,24 @@ type subscriber[T any] struct {
 	doFinally     rx.FnFinally
 }
 
-func (s *subscriber[T]) Success(value T) {
+// close records the outcome unless there already is one.
+func (s *subscriber[T]) close(value T, err error, signal rx.SignalType) bool {
+	s.m.mu.Lock()
+	defer s.m.mu.Unlock()
 	if s.closed {
-		return
+		return false
 	}
 	s.value = value
-	s.signal = rx.SignalComplete
+	s.err = err
+	s.signal = signal
 	s.closed = true
+	return true
+}
+
+func (s *subscriber[T]) Success(value T) {
+	if !s.close(value, nil, rx.SignalComplete) {
+		return
+	}
 	if s.doOnSuccess != nil {
 		s.doOnSuccess(value)
 	}
@@ -174,12 +194,10 @@ func (s *subscriber[T]) Success(value T) {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	var dummy T
+	if !s.close(dummy, err, rx.SignalError) {
 		return
 	}
-	s.err = err
-	s.signal = rx.SignalError
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -190,17 +208,19 @@ func (s *subscriber[T]) finally(signal rx.SignalType) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.m.callbacks {
+	s.m.mu.Lock()
+	callbacks := s.m.callbacks
+	s.m.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	var dummy T
+	if !s.close(dummy, nil, rx.SignalCancel) {
 		return
 	}
-	s.signal = rx.SignalCancel
-	s.closed = true
 	s.finally(rx.SignalCancel)
 }
 
diff --git a/rx/mono/mono_host.go b/rx/mono/mono_host.go
index 72e0c0d..a3b26df 100644
--- a/rx/mono/mono_host.go
+++ b/rx/mono/mono_host.go
@@ -3,16 +3,39 @@
 
 package mono
 
+import (
+	"sync"
+
+	"github.com/nanobus/iota/go/rx"
+)
+
+type mutex struct {
+	sync.Mutex
+}
+
 type Blockable[T any] interface {
 	Block() (T, error)
 }
 
 func (s *mono[T]) Block() (ret T, err error) {
-	if s.subscriber != nil && s.subscriber.closed {
-		return s.subscriber.value, s.subscriber.err
+	done := make(chan struct{})
+
+	s.mu.Lock()
+	if sub := s.subscriber; sub != nil {
+		closed := sub.closed
+		if !closed {
+			s.callbacks = append(s.callbacks, func(rx.SignalType) {
+				close(done)
+			})
+		}
+		s.mu.Unlock()
+		if !closed {
+			<-done
+		}
+		return sub.value, sub.err
 	}
+	s.mu.Unlock()
 
-	done := make(chan struct{})
 	go func() {
 		s.Subscribe(Subscribe[T]{
 			OnSuccess: func(value T) {
diff --git a/rx/mono/mono_webassembly.go b/rx/mono/mono_webassembly.go
index 5c489e0..a473e9c 100644
--- a/rx/mono/mono_webassembly.go
+++ b/rx/mono/mono_webassembly.go
@@ -3,5 +3,10 @@
 
 package mono
 
+type mutex struct{}
+
+func (m *mutex) Lock()   {}
+func (m *mutex) Unlock() {}
+
 type Blockable[T any] interface {
 }
diff --git a/rx/mono/processor.go b/rx/mono/processor.go
index 1d02282..537e9a1 100644
--- a/rx/mono/processor.go
+++ b/rx/mono/processor.go
@@ -7,19 +7,20 @@ type Processor[T any] interface {
 
 type ProcessorImpl[T any] struct {
 	Mono[T]
+	mu      mutex // guards sink and pending
 	sink    Sink[T]
-	success *T
-	err     error
+	pending func(Sink[T]) // outcome signalled before the subscription
 }
 
 func NewProcessor[T any]() *ProcessorImpl[T] {
 	p := &ProcessorImpl[T]{}
 	p.Mono = Create(func(sink Sink[T]) {
+		p.mu.Lock()
 		p.sink = sink
-		if p.success != nil {
-			sink.Success(*p.success)
-		} else if p.err != nil {
-			sink.Error(p.err)
+		pending := p.pending
+		p.mu.Unlock()
+		if pending != nil {
+			pending(sink)
 		}
 	})
 
@@ -27,17 +28,21 @@ func NewProcessor[T any]() *ProcessorImpl[T] {
 }
 
 func (p *ProcessorImpl[T]) Success(value T) {
-	if p.sink != nil {
-		p.sink.Success(value)
-	} else if p.success == nil && p.err == nil {
-		p.success = &value
-	}
+	p.signal(func(sink Sink[T]) { sink.Success(value) })
 }
 
 func (p *ProcessorImpl[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
-	} else if p.success == nil && p.err == nil {
-		p.err = err
+	p.signal(func(sink Sink[T]) { sink.Error(err) })
+}
+
+func (p *ProcessorImpl[T]) signal(fn func(Sink[T])) {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil && p.pending == nil {
+		p.pending = fn
+	}
+	p.mu.Unlock()
+	if sink != nil {
+		fn(sink)
 	}
 }
-- 
2.43.0


From e38ebe63f3f1543649157e25fc280d7ab5bd039a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 28/59] fix: mapped monos report success and convert again
 after a failed conversion

---
 rx/mono/mono.go | 43 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 39 insertions(+), 4 deletions(-)

diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index daa62c5..e136d8b 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -234,13 +234,34 @@ func Map[S any | ~[]any, D any](mono Mono[S], tx rx.Transform[S, D]) Mono[D] {
 type mapper[S any, D any] struct {
 	mono Mono[S]
 	tx   rx.Transform[S, D]
+
+	once  mutex // guards the conversion
+	done  bool
+	value D
+	err   error
+}
+
+// convert applies tx to the result, once.
+func (b *mapper[S, D]) convert(value S) (D, error) {
+	b.once.Lock()
+	defer b.once.Unlock()
+	if !b.done {
+		b.value, b.err = b.tx(value)
+		b.done = true
+	}
+	return b.value, b.err
 }
 
 func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
+	failed := false
+	b.once.Lock()
+	b.done = false
+	b.once.Unlock()
 	b.mono.Subscribe(Subscribe[S]{
 		OnSuccess: func(value S) {
-			converted, err := b.tx(value)
+			converted, err := b.convert(value)
 			if err != nil {
+				failed = true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
@@ -252,7 +273,14 @@ func (b *mapper[S, D]) Subscribe(sub Subscribe[D]) Mono[D] {
 		},
 		OnError:   sub.OnError,
 		OnRequest: sub.OnRequest,
-		Finally:   sub.Finally,
+		Finally: func(signal rx.SignalType) {
+			if failed {
+				signal = rx.SignalError
+			}
+			if sub.Finally != nil {
+				sub.Finally(signal)
+			}
+		},
 	})
 	return b
 }
@@ -262,7 +290,14 @@ func (b *mapper[S, D]) Async() {
 }
 
 func (b *mapper[S, D]) Notify(fn rx.FnFinally) {
-	b.mono.Notify(fn)
+	b.mono.Notify(func(signal rx.SignalType) {
+		if signal == rx.SignalComplete {
+			if _, err := b.Get(); err != nil {
+				signal = rx.SignalError
+			}
+		}
+		fn(signal)
+	})
 }
 
 func (b *mapper[S, D]) Get() (D, error) {
@@ -271,5 +306,5 @@ func (b *mapper[S, D]) Get() (D, error) {
 	if err != nil {
 		return d, err
 	}
-	return b.tx(v)
+	return b.convert(v)
 }
-- 
2.43.0


From 627414e1e693f026e230e904a44e18abd9966dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 29/59] fix: constant error fluxes never notify their end and
 lack a subscription

---
 rx/flux/flux.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 864f7e5..e598607 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -47,6 +47,9 @@ func (e errorFlow[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 	if sub.OnError != nil {
 		sub.OnError(e.err)
 	}
+	if sub.Finally != nil {
+		sub.Finally(rx.SignalError)
+	}
 	return e
 }
 
@@ -56,14 +59,21 @@ func (e errorFlow[T]) Notify(fn rx.FnFinally) {
 	fn(rx.SignalError)
 }
 
-func (e errorFlow[T]) Block(_ Subscribe[T]) error {
+func (e errorFlow[T]) Block(sub Subscribe[T]) error {
+	e.Subscribe(sub)
 	return e.err
 }
 
 func (e errorFlow[T]) Subscription() rx.Subscription {
-	return nil
+	return ended{}
 }
 
+// ended is the subscription to a flux that has already ended.
+type ended struct{}
+
+func (ended) Request(n int) {}
+func (ended) Cancel()       {}
+
 func Create[T any](source Source[T]) Flux[T] {
 	return &flux[T]{
 		source: source,
-- 
2.43.0


From 1dcc28a006ddd0d599047678fa1edc4f4a2eda9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:03 +0000
Subject: [PATCH 30/59] fix: cancelling a flux skips its listeners and notifies
 ended subscribers again

---
 rx/flux/flux.go | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index e598607..fd6eb1b 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -152,6 +152,7 @@ func (s *subscriber[T]) Complete() {
 	if s.closed {
 		return
 	}
+	s.signal = rx.SignalComplete
 	s.closed = true
 	if s.doOnComplete != nil {
 		s.doOnComplete()
@@ -164,6 +165,7 @@ func (s *subscriber[T]) Error(err error) {
 		return
 	}
 	s.err = err
+	s.signal = rx.SignalError
 	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
@@ -172,7 +174,6 @@ func (s *subscriber[T]) Error(err error) {
 }
 
 func (s *subscriber[T]) finally(signal rx.SignalType) {
-	s.signal = signal
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
@@ -210,13 +211,15 @@ func (s *subscriber[T]) Request(n int) {
 }
 
 func (s *subscriber[T]) Cancel() {
+	if s.closed {
+		return
+	}
+	s.signal = rx.SignalCancel
 	s.closed = true
 	if s.sub.Cancel != nil {
 		s.sub.Cancel()
 	}
-	if s.doFinally != nil {
-		s.doFinally(rx.SignalCancel)
-	}
+	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
-- 
2.43.0


From a5d2f28dae26dfe4b1e6dfef8590d261c5384590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:04 +0000
Subject: [PATCH 31/59] fix: ended fluxes still ask for elements

---
 rx/flux/flux.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index fd6eb1b..844bbae 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -193,7 +193,7 @@ func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
 }
 
 func (s *subscriber[T]) handleOnSubscribe() {
-	if s.noRequest {
+	if s.noRequest || s.closed {
 		return
 	}
 	if s.doOnRequest != nil {
@@ -204,6 +204,9 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	if s.closed {
+		return
+	}
 	s.n += n
 	if s.sub.Request != nil {
 		s.doRequest(n)
-- 
2.43.0


From 07a62d33b0ca4c5b4e62a88ba088ef6602c0d2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:40 +0000
Subject: [PATCH 32/59] fix: flux processor drops signals before the
 subscription

---
 rx/flux/flux_webassembly.go |  3 ++
 rx/flux/processor.go        | 62 +++++++++++++++++++++++++++----------
 2 files changed, 48 insertions(+), 17 deletions(-)

diff --git a/rx/flux/flux_webassembly.go b/rx/flux/flux_webassembly.go
index 08ca2f7..3b2cce1 100644
--- a/rx/flux/flux_webassembly.go
+++ b/rx/flux/flux_webassembly.go
@@ -8,6 +8,9 @@ type Blockable[T any] interface {
 
 type mutex struct{}
 
+func (m *mutex) Lock()   {}
+func (m *mutex) Unlock() {}
+
 func (s *subscriber[T]) doRequest(n int) {
 	s.sub.Request(n)
 }
diff --git a/rx/flux/processor.go b/rx/flux/processor.go
index 10770a6..a62fa1c 100644
--- a/rx/flux/processor.go
+++ b/rx/flux/processor.go
@@ -7,17 +7,34 @@ type Processor[T any] interface {
 
 type processor[T any] struct {
 	Flux[T]
-	sink Sink[T]
-	sub  *OnSubscribe
+
+	mu      mutex // guards the fields below
+	sink    Sink[T]
+	sub     *OnSubscribe
+	pending []func(Sink[T]) // signals before the subscription
 }
 
 func NewProcessor[T any]() Processor[T] {
 	p := &processor[T]{}
 	p.Flux = Create(func(sink Sink[T]) {
-		p.sink = sink
-		if p.sub != nil {
-			sink.OnSubscribe(*p.sub)
-			p.sub = nil
+		p.mu.Lock()
+		sub := p.sub
+		p.sub = nil
+		p.mu.Unlock()
+		if sub != nil {
+			sink.OnSubscribe(*sub)
+		}
+		for {
+			p.mu.Lock()
+			if len(p.pending) == 0 {
+				p.sink = sink
+				p.mu.Unlock()
+				return
+			}
+			next := p.pending[0]
+			p.pending = p.pending[1:]
+			p.mu.Unlock()
+			next(sink)
 		}
 	})
 
@@ -25,27 +42,38 @@ func NewProcessor[T any]() Processor[T] {
 }
 
 func (p *processor[T]) Next(value T) {
-	if p.sink != nil {
-		p.sink.Next(value)
-	}
+	p.signal(func(sink Sink[T]) { sink.Next(value) })
 }
 
 func (p *processor[T]) Complete() {
-	if p.sink != nil {
-		p.sink.Complete()
-	}
+	p.signal(func(sink Sink[T]) { sink.Complete() })
 }
 
 func (p *processor[T]) Error(err error) {
-	if p.sink != nil {
-		p.sink.Error(err)
+	p.signal(func(sink Sink[T]) { sink.Error(err) })
+}
+
+// signal passes a signal on, or keeps it for the subscription.
+func (p *processor[T]) signal(fn func(Sink[T])) {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
+		p.pending = append(p.pending, fn)
+	}
+	p.mu.Unlock()
+	if sink != nil {
+		fn(sink)
 	}
 }
 
 func (p *processor[T]) OnSubscribe(sub OnSubscribe) {
-	if p.sink != nil {
-		p.sink.OnSubscribe(sub)
-	} else {
+	p.mu.Lock()
+	sink := p.sink
+	if sink == nil {
 		p.sub = &sub
 	}
+	p.mu.Unlock()
+	if sink != nil {
+		sink.OnSubscribe(sub)
+	}
 }
-- 
2.43.0


From 1e71c0d4475bc069a938f61671832643ffdd746f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:02 +0000
Subject: [PATCH 33/59] fix: fluxes lose state to signals from another
 goroutine

---
 rx/flux/flux.go      | 78 +++++++++++++++++++++++++++++++++-----------
 rx/flux/flux_host.go | 15 +++++++--
 2 files changed, 71 insertions(+), 22 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 844bbae..14edc0f 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -82,6 +82,7 @@ func Create[T any](source Source[T]) Flux[T] {
 
 type flux[T any] struct {
 	source     Source[T]
+	mu         mutex // guards subscriber, its state and callbacks
 	subscriber *subscriber[T]
 	callbacks  []rx.FnFinally
 }
@@ -96,24 +97,32 @@ func (f *flux[T]) Subscribe(sub Subscribe[T]) Flux[T] {
 		f:            f,
 		noRequest:    sub.NoRequest,
 	}
+	f.mu.Lock()
 	f.subscriber = &s
+	f.mu.Unlock()
 	f.source(&s)
 	s.handleOnSubscribe()
 	return f
 }
 
 func (f *flux[T]) Subscription() rx.Subscription {
+	f.mu.Lock()
+	defer f.mu.Unlock()
 	return f.subscriber
 }
 
 func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
+	f.mu.Lock()
 	if f.subscriber != nil && f.subscriber.closed {
-		fn(f.subscriber.signal)
+		signal := f.subscriber.signal
+		f.mu.Unlock()
+		fn(signal)
 		return
 	}
 	f.callbacks = append(f.callbacks, fn)
+	f.mu.Unlock()
 }
 
 type subscriber[T any] struct {
@@ -135,25 +144,42 @@ type subscriber[T any] struct {
 }
 
 func (s *subscriber[T]) Next(value T) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n--
+	s.f.mu.Unlock()
 	if s.doOnNext != nil {
 		s.doOnNext(value)
 	}
 
-	if s.n == 0 {
+	s.f.mu.Lock()
+	exhausted := s.n == 0
+	s.f.mu.Unlock()
+	if exhausted {
 		s.handleOnSubscribe()
 	}
 }
 
-func (s *subscriber[T]) Complete() {
+// close records how the subscription ended unless it already has.
+func (s *subscriber[T]) close(err error, signal rx.SignalType) bool {
+	s.f.mu.Lock()
+	defer s.f.mu.Unlock()
 	if s.closed {
-		return
+		return false
 	}
-	s.signal = rx.SignalComplete
+	s.err = err
+	s.signal = signal
 	s.closed = true
+	return true
+}
+
+func (s *subscriber[T]) Complete() {
+	if !s.close(nil, rx.SignalComplete) {
+		return
+	}
 	if s.doOnComplete != nil {
 		s.doOnComplete()
 	}
@@ -161,12 +187,9 @@ func (s *subscriber[T]) Complete() {
 }
 
 func (s *subscriber[T]) Error(err error) {
-	if s.closed {
+	if !s.close(err, rx.SignalError) {
 		return
 	}
-	s.err = err
-	s.signal = rx.SignalError
-	s.closed = true
 	if s.doOnError != nil {
 		s.doOnError(err)
 	}
@@ -177,23 +200,33 @@ func (s *subscriber[T]) finally(signal rx.SignalType) {
 	if s.doFinally != nil {
 		s.doFinally(signal)
 	}
-	for _, fn := range s.f.callbacks {
+	s.f.mu.Lock()
+	callbacks := s.f.callbacks
+	s.f.mu.Unlock()
+	for _, fn := range callbacks {
 		fn(signal)
 	}
 }
 
 func (s *subscriber[T]) OnSubscribe(sub OnSubscribe) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.sub = sub
-	if s.n > 0 {
-		s.doRequest(s.n)
+	n := s.n
+	s.f.mu.Unlock()
+	if n > 0 {
+		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) handleOnSubscribe() {
-	if s.noRequest || s.closed {
+	s.f.mu.Lock()
+	closed := s.closed
+	s.f.mu.Unlock()
+	if s.noRequest || closed {
 		return
 	}
 	if s.doOnRequest != nil {
@@ -204,29 +237,36 @@ func (s *subscriber[T]) handleOnSubscribe() {
 }
 
 func (s *subscriber[T]) Request(n int) {
+	s.f.mu.Lock()
 	if s.closed {
+		s.f.mu.Unlock()
 		return
 	}
 	s.n += n
-	if s.sub.Request != nil {
+	ready := s.sub.Request != nil
+	s.f.mu.Unlock()
+	if ready {
 		s.doRequest(n)
 	}
 }
 
 func (s *subscriber[T]) Cancel() {
-	if s.closed {
+	if !s.close(nil, rx.SignalCancel) {
 		return
 	}
-	s.signal = rx.SignalCancel
-	s.closed = true
-	if s.sub.Cancel != nil {
-		s.sub.Cancel()
+	s.f.mu.Lock()
+	sub := s.sub
+	s.f.mu.Unlock()
+	if sub.Cancel != nil {
+		sub.Cancel()
 	}
 	s.finally(rx.SignalCancel)
 }
 
 func (s *subscriber[T]) Close() {
+	s.f.mu.Lock()
 	s.closed = true
+	s.f.mu.Unlock()
 }
 
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index bdf98f5..e83ccbc 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -21,13 +21,22 @@ func (s *subscriber[T]) doRequest(n int) {
 	go func(n int) {
 		s.mu.Lock()
 		defer s.mu.Unlock()
-		s.sub.Request(n)
+		s.f.mu.Lock()
+		sub, closed := s.sub, s.closed
+		s.f.mu.Unlock()
+		if !closed {
+			sub.Request(n)
+		}
 	}(n)
 }
 
 func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
-	if f.subscriber.closed {
-		return f.subscriber.err
+	f.mu.Lock()
+	s := f.subscriber
+	closed := s != nil && s.closed
+	f.mu.Unlock()
+	if closed {
+		return s.err
 	}
 
 	return Block(Flux[T](f), sub)
-- 
2.43.0


From c6ed6d712c6a4d5a515b39dfc65c0f4e261aa733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:12 +0000
Subject: [PATCH 34/59] fix: mapped fluxes continue after a failed conversion

---
 rx/flux/flux.go      | 80 +++++++++++++++++++++++++++-----------------
 rx/flux/flux_host.go |  2 +-
 2 files changed, 51 insertions(+), 31 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 14edc0f..48013a3 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -263,62 +263,82 @@ func (s *subscriber[T]) Cancel() {
 	s.finally(rx.SignalCancel)
 }
 
-func (s *subscriber[T]) Close() {
-	s.f.mu.Lock()
-	s.closed = true
-	s.f.mu.Unlock()
-}
-
 func Map[S, D any](f Flux[S], tx rx.Transform[S, D]) Flux[D] {
-	return mapper[S, D]{
+	return &mapper[S, D]{
 		f:  f,
 		tx: tx,
 	}
 }
 
 type mapper[S, D any] struct {
-	f  Flux[S]
-	tx rx.Transform[S, D]
-}
-
-type closable[T any] interface {
-	Close()
-}
-
-func (m mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	f      Flux[S]
+	tx     rx.Transform[S, D]
+	failed bool
+}
+
+func (m *mapper[S, D]) Subscribe(sub Subscribe[D]) Flux[D] {
+	m.failed = false
+	failed, finished := false, false
+	finally := func(signal rx.SignalType) {
+		if finished {
+			return
+		}
+		finished = true
+		if failed {
+			signal = rx.SignalError
+		}
+		if sub.Finally != nil {
+			sub.Finally(signal)
+		}
+	}
 	m.f.Subscribe(Subscribe[S]{
 		OnNext: func(value S) {
+			if failed {
+				return
+			}
 			if converted, err := m.tx(value); err != nil {
-				if close, ok := m.f.(closable[S]); ok {
-					close.Close()
-				}
+				failed, m.failed = true, true
 				if sub.OnError != nil {
 					sub.OnError(err)
 				}
-				if sub.Finally != nil {
-					sub.Finally(rx.SignalError)
+				if s := m.f.Subscription(); s != nil {
+					s.Cancel()
 				}
+				finally(rx.SignalError)
 			} else if sub.OnNext != nil {
 				sub.OnNext(converted)
 			}
 		},
-		OnComplete: sub.OnComplete,
-		OnError:    sub.OnError,
-		OnRequest:  sub.OnRequest,
-		Finally:    sub.Finally,
-		NoRequest:  sub.NoRequest,
+		OnComplete: func() {
+			if !failed && sub.OnComplete != nil {
+				sub.OnComplete()
+			}
+		},
+		OnError: func(err error) {
+			if !failed && sub.OnError != nil {
+				sub.OnError(err)
+			}
+		},
+		OnRequest: sub.OnRequest,
+		Finally:   finally,
+		NoRequest: sub.NoRequest,
 	})
 	return m
 }
 
-func (m mapper[S, D]) Async() {
+func (m *mapper[S, D]) Async() {
 	m.f.Async()
 }
 
-func (m mapper[S, D]) Notify(fn rx.FnFinally) {
-	m.f.Notify(fn)
+func (m *mapper[S, D]) Notify(fn rx.FnFinally) {
+	m.f.Notify(func(signal rx.SignalType) {
+		if m.failed {
+			signal = rx.SignalError
+		}
+		fn(signal)
+	})
 }
 
-func (m mapper[S, D]) Subscription() rx.Subscription {
+func (m *mapper[S, D]) Subscription() rx.Subscription {
 	return m.f.Subscription()
 }
diff --git a/rx/flux/flux_host.go b/rx/flux/flux_host.go
index e83ccbc..5e8579e 100644
--- a/rx/flux/flux_host.go
+++ b/rx/flux/flux_host.go
@@ -42,7 +42,7 @@ func (f *flux[T]) Block(sub Subscribe[T]) (err error) {
 	return Block(Flux[T](f), sub)
 }
 
-func (b mapper[S, D]) Block(sub Subscribe[D]) (err error) {
+func (b *mapper[S, D]) Block(sub Subscribe[D]) (err error) {
 	return Block(Flux[D](b), sub)
 }
 
-- 
2.43.0


From 44d82330938ea1344d9b4a8d67ec184d1feb5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:22 +0000
Subject: [PATCH 35/59] fix: listeners registered while a computation ends run
 before its subscriber

---
 rx/flux/flux.go |  4 +++-
 rx/mono/mono.go | 14 ++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/rx/flux/flux.go b/rx/flux/flux.go
index 48013a3..97e1d72 100644
--- a/rx/flux/flux.go
+++ b/rx/flux/flux.go
@@ -115,7 +115,7 @@ func (f *flux[T]) Async() {}
 
 func (f *flux[T]) Notify(fn rx.FnFinally) {
 	f.mu.Lock()
-	if f.subscriber != nil && f.subscriber.closed {
+	if f.subscriber != nil && f.subscriber.notified {
 		signal := f.subscriber.signal
 		f.mu.Unlock()
 		fn(signal)
@@ -127,6 +127,7 @@ func (f *flux[T]) Notify(fn rx.FnFinally) {
 
 type subscriber[T any] struct {
 	closed    bool
+	notified  bool // the subscriber itself knows it has ended
 	n         int
 	err       error
 	sub       OnSubscribe
@@ -202,6 +203,7 @@ func (s *subscriber[T]) finally(signal rx.SignalType) {
 	}
 	s.f.mu.Lock()
 	callbacks := s.f.callbacks
+	s.notified = true
 	s.f.mu.Unlock()
 	for _, fn := range callbacks {
 		fn(signal)
diff --git a/rx/mono/mono.go b/rx/mono/mono.go
index e136d8b..8cff4bd 100644
--- a/rx/mono/mono.go
+++ b/rx/mono/mono.go
@@ -136,7 +136,7 @@ func (m *mono[T]) Notify(fn rx.FnFinally) {
 	// 	m.source(&wrapper)
 	// }
 	m.mu.Lock()
-	if m.subscriber != nil && m.subscriber.closed {
+	if m.subscriber != nil && m.subscriber.notified {
 		signal := m.subscriber.signal
 		m.mu.Unlock()
 		fn(signal)
@@ -157,11 +157,12 @@ func (m *mono[T]) Get() (ret T, err error) {
 }
 
 type subscriber[T any] struct {
-	closed bool
-	value  T
-	err    error
-	signal rx.SignalType
-	m      *mono[T]
+	closed   bool
+	notified bool // the subscriber itself knows the outcome
+	value    T
+	err      error
+	signal   rx.SignalType
+	m        *mono[T]
 
 	doOnSuccess   rx.FnOnNext[T]
 	doOnError     rx.FnOnError
@@ -210,6 +211,7 @@ func (s *subscriber[T]) finally(signal rx.SignalType) {
 	}
 	s.m.mu.Lock()
 	callbacks := s.m.callbacks
+	s.notified = true
 	s.m.mu.Unlock()
 	for _, fn := range callbacks {
 		fn(signal)
-- 
2.43.0


From 21e8fdd066dc2ab7948ecc5d8611a621bc6f577a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 36/59] fix: slice fluxes are empty for every subscriber but
 the first

---
 rx/flux/slice.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rx/flux/slice.go b/rx/flux/slice.go
index d3b2881..5704491 100644
--- a/rx/flux/slice.go
+++ b/rx/flux/slice.go
@@ -2,6 +2,7 @@ package flux
 
 func FromSlice[T any](values []T) Flux[T] {
 	return Create(func(sink Sink[T]) {
+		values := values
 		sink.OnSubscribe(OnSubscribe{
 			Request: func(n int) {
 				for i := n; i > 0 && len(values) != 0; i-- {
-- 
2.43.0


From c90c2e86c1397e0a3eace2647dcc064a8ae80491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:23 +0000
Subject: [PATCH 37/59] fix: slice responses repeat elements and completion
 when asked again

---
 rx/flux/response.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/rx/flux/response.go b/rx/flux/response.go
index 739f81f..3aa59a4 100644
--- a/rx/flux/response.go
+++ b/rx/flux/response.go
@@ -1,16 +1,15 @@
 package flux
 
 func SliceResponse[T any](sink Sink[T], slice []T) func(n int) {
+	completed := false
 	return func(n int) {
-		num := len(slice)
-		if n < num {
-			num = n
+		for ; n > 0 && len(slice) > 0; n-- {
+			next := slice[0]
+			slice = slice[1:]
+			sink.Next(next)
 		}
-		for i := 0; i < num; i++ {
-			sink.Next(slice[i])
-		}
-		slice = slice[num:]
-		if len(slice) == 0 {
+		if len(slice) == 0 && !completed {
+			completed = true
 			sink.Complete()
 		}
 	}
-- 
2.43.0


From a0698cadaf96930d8d8f4ff7533c50cb6693563b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:52 +0000
Subject: [PATCH 38/59] fix: flows rerun steps whose awaits finish at once and
 stall or miscount others

---
 rx/flow/flow.go | 70 ++++++++++++++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 33 deletions(-)

diff --git a/rx/flow/flow.go b/rx/flow/flow.go
index 874f617..23827a4 100644
--- a/rx/flow/flow.go
+++ b/rx/flow/flow.go
@@ -1,6 +1,8 @@
 package flow
 
 import (
+	"sync/atomic"
+
 	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/await"
 	"github.com/nanobus/iota/go/rx/flux"
@@ -13,9 +15,8 @@ type (
 		monoSink mono.Sink[T]
 		fluxSink flux.Sink[T]
 
-		ended      bool
-		completed  int
-		awaitables []await.Awaitable
+		ended    bool
+		answered bool
 	}
 
 	StepFn func() (await.Group, error)
@@ -46,6 +47,7 @@ func (f *Flow[T]) Complete() (await.Group, error) {
 	if f.fluxSink == nil {
 		panic("Complete is only called for flux retruns")
 	}
+	f.answered = true
 	f.fluxSink.Complete()
 
 	return nil, nil
@@ -55,6 +57,7 @@ func (f *Flow[T]) Success(value T) (await.Group, error) {
 	if f.monoSink == nil {
 		panic("success is only called for mono retruns")
 	}
+	f.answered = true
 	f.monoSink.Success(value)
 
 	return nil, nil
@@ -84,39 +87,40 @@ func (f *Flow[T]) Flux() flux.Flux[T] {
 	})
 }
 
+// next runs steps until one has to wait for its awaitables.
 func (f *Flow[T]) next() {
-	if len(f.steps) == 0 {
-		return
-	}
-
-	f.completed = 0
-	step := f.steps[0]
-	awaitables, err := step()
-	if err != nil {
-		if f.monoSink != nil {
-			f.monoSink.Error(err)
-		} else if f.fluxSink != nil {
-			f.fluxSink.Error(err)
+	for len(f.steps) > 0 {
+		step := f.steps[0]
+		f.steps = f.steps[1:]
+		awaitables, err := step()
+		if err != nil {
+			f.steps = nil
+			if f.monoSink != nil {
+				f.monoSink.Error(err)
+			} else if f.fluxSink != nil {
+				f.fluxSink.Error(err)
+			}
+			return
 		}
-		return
-	}
 
-	if f.ended {
-		return
-	}
-
-	f.awaitables = awaitables
-	for _, a := range f.awaitables {
-		a.Async() // Ensure task is running.
-		a.Notify(f.check)
-	}
-
-	f.steps = f.steps[1:]
-}
+		if f.ended || (f.answered && len(awaitables) == 0) {
+			f.steps = nil
+			return
+		}
 
-func (f *Flow[T]) check(rx.SignalType) {
-	f.completed++
-	if f.completed >= len(f.awaitables) {
-		f.next()
+		// Whoever finishes the step last runs the next one.
+		pending := int32(len(awaitables)) + 1
+		for _, a := range awaitables {
+			var notified int32
+			a.Async() // Ensure task is running.
+			a.Notify(func(rx.SignalType) {
+				if atomic.AddInt32(&notified, 1) == 1 && atomic.AddInt32(&pending, -1) == 0 {
+					f.next()
+				}
+			})
+		}
+		if atomic.AddInt32(&pending, -1) != 0 {
+			return
+		}
 	}
 }
-- 
2.43.0


From 9be64cd8b04d6a515049c1bcabdc0dd74319e8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:19 +0000
Subject: [PATCH 39/59] fix: blocking on an already subscribed mapped mono
 hangs

---
 rx/mono/mono_host.go | 21 +++++----------------
 1 file changed, 5 insertions(+), 16 deletions(-)

diff --git a/rx/mono/mono_host.go b/rx/mono/mono_host.go
index a3b26df..ac44e00 100644
--- a/rx/mono/mono_host.go
+++ b/rx/mono/mono_host.go
@@ -54,20 +54,9 @@ func (s *mono[T]) Block() (ret T, err error) {
 }
 
 func (b *mapper[S, D]) Block() (ret D, err error) {
-	done := make(chan struct{})
-	go func() {
-		b.Subscribe(Subscribe[D]{
-			OnSuccess: func(value D) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
-
-	<-done
-	return ret, err
+	value, err := b.mono.Block()
+	if err != nil {
+		return ret, err
+	}
+	return b.convert(value)
 }
-- 
2.43.0


From f67af26aaf30b08298bed6dd1839ed617a06da41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 40/59] fix: keep the guest within its buffers

Truncated and malformed host buffers panicked or stopped the processing of
the frames that follow, undecodable requests were answered on stream 0, and
frames larger than the shared buffer were written past its end.
---
 transport/wasmrs/guest/guest.go | 43 +++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 6e7218a..82100c4 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -34,6 +34,8 @@ var (
 	fragmentedPayloads map[uint32]fragmentedPayload
 )
 
+var errTooLarge = errors.New("frame exceeds the buffer")
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -70,16 +72,23 @@ func OperationList() {
 func GuestSend(endPos uint32) {
 	ctx := context.Background()
 	var lengthBuf [4]byte
-	curPos := uint32(0)
 	buf := guestBuffer
+	if endPos < uint32(len(buf)) {
+		buf = buf[:endPos]
+	}
 
-	for curPos < endPos {
+	for len(buf) >= 3 {
 		copy(lengthBuf[1:], buf)
 		frameLen := binary.BigEndian.Uint32(lengthBuf[:])
+		if frameLen > uint32(len(buf)-3) {
+			return // Truncated
+		}
 		frameBuf := make([]byte, frameLen)
 		copy(frameBuf, buf[3:])
-		curPos += 3 + frameLen
 		buf = buf[3+frameLen:]
+		if frameLen < frames.FrameHeaderLen {
+			continue // Not a frame
+		}
 
 		// lengthPos = 1 // Reset for next frame
 		header := frames.ParseFrameHeader(frameBuf)
@@ -106,7 +115,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -122,7 +131,7 @@ func GuestSend(endPos uint32) {
 			var rr frames.RequestPayload
 			if err := rr.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rr.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -138,7 +147,7 @@ func GuestSend(endPos uint32) {
 			var rs frames.RequestPayload
 			if err := rs.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rs.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
 				continue
@@ -154,10 +163,10 @@ func GuestSend(endPos uint32) {
 			var rc frames.RequestPayload
 			if err := rc.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rc.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 			if checkFollows(&rc) {
 				// Will be processed under frames.FrameTypePayload
@@ -170,14 +179,15 @@ func GuestSend(endPos uint32) {
 			var rn frames.RequestN
 			if err := rn.Decode(&header, buffer); err != nil {
 				sendFrame(&frames.Error{
-					StreamID: rn.StreamID,
+					StreamID: header.StreamID(),
 					Data:     err.Error(),
 				})
-				return
+				continue
 			}
 
-			s := str.(DoRequest)
-			s.DoRequest(int(rn.N))
+			if s, ok := str.(DoRequest); ok {
+				s.DoRequest(int(rn.N))
+			}
 
 		case frames.FrameTypeCancel:
 			str.OnComplete()
@@ -519,17 +529,20 @@ func sendFrame(f frames.Frame) error {
 	// } else {
 	// 	doSendFrame(f)
 	// }
-	doSendFrame(f)
-	return nil
+	return doSendFrame(f)
 }
 
-func doSendFrame(f frames.Frame) {
+func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
+	if uint64(byteLength)+3 > uint64(len(hostBuffer)) {
+		return errTooLarge
+	}
 	var length [4]byte
 	binary.BigEndian.PutUint32(length[0:4], byteLength)
 	copy(hostBuffer[0:3], length[1:4])
 	f.Encode(hostBuffer[3:])
 	hostSend(byteLength + 3)
+	return nil
 }
 
 type DoRequest interface {
-- 
2.43.0


From a21753080692fea3a306e094cac2264052752470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 41/59] fix: close host instances without crashing and bound
 guest buffers

Frames sent or received while an instance closes panicked on closed channels,
cancelled requests closed it twice, malformed guest buffers panicked, and
frames larger than the shared buffer were written past its end.
---
 transport/wasmrs/host/instance.go | 115 ++++++++++++++++++++++--------
 1 file changed, 87 insertions(+), 28 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 93dd935..d608369 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -43,6 +43,8 @@ type Instance struct {
 	activeRequests atomic.Int64
 	closing        atomic.Bool
 	closed         chan struct{}
+	closedOnce     sync.Once
+	done           chan struct{}
 	once           sync.Once
 
 	maxFrameSize       uint32
@@ -55,6 +57,11 @@ type Instance struct {
 	importedRC   []invoke.RequestChannelHandler
 }
 
+var (
+	errClosed   = errors.New("instance is closed")
+	errTooLarge = errors.New("frame exceeds the buffer")
+)
+
 type fragmentedPayload struct {
 	frameType frames.FrameType
 	initialN  uint32
@@ -83,6 +90,7 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 		fragmentedPayloads: make(map[uint32]fragmentedPayload),
 		sendSize:           16 * 1024,
 		closed:             make(chan struct{}),
+		done:               make(chan struct{}),
 	}
 
 	ctx = context.WithValue(ctx, instanceKey{}, i)
@@ -92,6 +100,9 @@ func NewInstance(ctx context.Context, m api.Module) (*Instance, error) {
 	}
 
 	f := m.ExportedFunction("__wasmrs_op_list_request")
+	if f == nil {
+		return nil, errors.New("module does not export __wasmrs_op_list_request")
+	}
 	_, err = f.Call(ctx)
 	if err != nil {
 		return nil, err
@@ -111,8 +122,7 @@ func (i *Instance) Close() error {
 			<-i.closed
 		}
 
-		close(i.sendCh)
-		close(i.recvCh)
+		close(i.done)
 	})
 
 	return nil
@@ -120,7 +130,7 @@ func (i *Instance) Close() error {
 
 func (i *Instance) reduceActiveRequests() {
 	if i.activeRequests.Add(-1) <= 0 && i.closing.Load() {
-		close(i.closed)
+		i.closedOnce.Do(func() { close(i.closed) })
 	}
 }
 
@@ -160,8 +170,20 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// } else {
 	// 	i.sendCh <- f
 	// }
-	i.sendCh <- f
-	return nil
+	if 3+uint64(f.Size()) > uint64(i.sendSize) {
+		return errTooLarge
+	}
+	select {
+	case <-i.done:
+		return errClosed
+	default:
+	}
+	select {
+	case i.sendCh <- f:
+		return nil
+	case <-i.done:
+		return errClosed
+	}
 }
 
 func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
@@ -170,23 +192,44 @@ func (i *Instance) setBuffers(sendPtr, recvPtr uint32) {
 }
 
 func (i *Instance) sendLoop() {
-	var lengthBytes [4]byte
 	ctx := context.WithValue(i.ctx, instanceKey{}, i)
 
-	for f := range i.sendCh {
-		mem := i.m.Memory()
-		buf, _ := mem.Read(i.sendPtr, i.sendSize)
-		byteCount := f.Size()
-
-		// Encode length and frame data.
-		binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
-		copy(buf[0:], lengthBytes[1:4])
-		f.Encode(buf[3:])
+	for {
+		select {
+		case f := <-i.sendCh:
+			i.sendOne(ctx, f)
+		case <-i.done:
+			// Everything sent before closing still goes out.
+			for {
+				select {
+				case f := <-i.sendCh:
+					i.sendOne(ctx, f)
+				default:
+					return
+				}
+			}
+		}
+	}
+}
 
-		// Send frame data to guest.
-		i.sendFn.Call(ctx, uint64(3+byteCount))
+func (i *Instance) sendOne(ctx context.Context, f frames.Frame) {
+	var lengthBytes [4]byte
+	mem := i.m.Memory()
+	byteCount := f.Size()
+	buf, ok := mem.Read(i.sendPtr, i.sendSize)
+	if !ok {
+		return
 	}
+
+	// Encode length and frame data.
+	binary.BigEndian.PutUint32(lengthBytes[:], byteCount)
+	copy(buf[0:], lengthBytes[1:4])
+	f.Encode(buf[3:])
+
+	// Send frame data to guest.
+	i.sendFn.Call(ctx, uint64(3+byteCount))
 }
+
 func (i *Instance) Operations() operations.Table {
 	return i.operations
 }
@@ -200,26 +243,41 @@ func (i *Instance) opList(ctx context.Context, opPtr uint32, opSize uint32) {
 func (i *Instance) hostSend(ctx context.Context, recvPos uint32) {
 	buffer, _ := i.m.Memory().Read(i.recvPtr, recvPos)
 
-	for len(buffer) > 0 {
+	for len(buffer) >= 3 {
 		var length [4]byte
 		copy(length[1:4], buffer[0:3])
 		buffer = buffer[3:]
 		frameLength := binary.BigEndian.Uint32(length[0:4])
+		if frameLength > uint32(len(buffer)) {
+			return // Truncated
+		}
 		buf := make([]byte, int(frameLength))
 		copy(buf, buffer)
-		i.recvCh <- buf
+		select {
+		case i.recvCh <- buf:
+		case <-i.done:
+			return
+		}
 		buffer = buffer[frameLength:]
 	}
 }
 
 func (i *Instance) recvLoop() {
-	for buf := range i.recvCh {
-		i.recvOne(buf)
+	for {
+		select {
+		case buf := <-i.recvCh:
+			i.recvOne(buf)
+		case <-i.done:
+			return
+		}
 	}
 }
 
 func (i *Instance) recvOne(data []byte) {
 	ctx := context.Background()
+	if len(data) < frames.FrameHeaderLen {
+		return // Not a frame
+	}
 	header := frames.ParseFrameHeader(data)
 	data = data[frames.FrameHeaderLen:]
 
@@ -243,7 +301,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -260,7 +318,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rr frames.RequestPayload
 		if err := rr.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rr.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -276,7 +334,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rs frames.RequestPayload
 		if err := rs.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rs.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -293,7 +351,7 @@ func (i *Instance) recvOne(data []byte) {
 		var rc frames.RequestPayload
 		if err := rc.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rc.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
@@ -310,14 +368,15 @@ func (i *Instance) recvOne(data []byte) {
 		var rn frames.RequestN
 		if err := rn.Decode(&header, data); err != nil {
 			i.SendFrame(&frames.Error{
-				StreamID: rn.StreamID,
+				StreamID: header.StreamID(),
 				Data:     err.Error(),
 			})
 			return
 		}
 
-		s := str.(DoRequest)
-		go s.DoRequest(int(rn.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(rn.N))
+		}
 
 	case frames.FrameTypeCancel:
 		str.OnComplete()
-- 
2.43.0


From 29ff95cb8d884ca6b689d74eb50a91e306d85b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:18 +0000
Subject: [PATCH 42/59] fix: keep streams until both halves have ended

Streams were registered after their requests had been answered or never,
removed while a half of a channel was still open or kept after the end,
cancellation was taken for completion and sent for requests never made, early
demand panicked, requests with unknown operations were counted forever, and
blocking on a call raced with its response.
---
 handler/caller.go                 |   6 +-
 handler/handler.go                | 132 ++++++++-------------
 proxy/flux.go                     |  91 +++++++++++++--
 proxy/mono.go                     |  23 +++-
 proxy/mono_host.go                |  23 +---
 proxy/responder.go                | 173 +++++++++++++++++++++++++++
 proxy/stream.go                   |   2 +
 transport/wasmrs/guest/caller.go  |   6 +-
 transport/wasmrs/guest/guest.go   | 162 ++++++++++----------------
 transport/wasmrs/host/caller.go   |   6 +-
 transport/wasmrs/host/instance.go | 187 ++++++++++++++----------------
 11 files changed, 485 insertions(+), 326 deletions(-)
 create mode 100644 proxy/responder.go

diff --git a/handler/caller.go b/handler/caller.go
index 7a2eb92..3b7a128 100644
--- a/handler/caller.go
+++ b/handler/caller.go
@@ -71,7 +71,7 @@ func (i *Handler) RequestResponse(ctx context.Context, p payload.Payload) mono.M
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -92,7 +92,7 @@ func (i *Handler) RequestStream(ctx context.Context, p payload.Payload) flux.Flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -102,7 +102,7 @@ func (i *Handler) RequestChannel(ctx context.Context, p payload.Payload, in flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Handler) getNextStreamID() uint32 {
diff --git a/handler/handler.go b/handler/handler.go
index 73cb055..843dd31 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"encoding/binary"
 	"errors"
-	"fmt"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/internal/socket"
@@ -12,7 +11,6 @@ import (
 	"github.com/nanobus/iota/go/operations"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -115,10 +113,7 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 		var ok bool
 		str, ok = i.getStream(streamID)
 		if !ok {
-			// Return error
-			if frameType != frames.FrameTypeRequestN {
-				return fmt.Errorf("stream ID %d not found", streamID)
-			}
+			// The stream may have ended already.
 			return
 		}
 	}
@@ -156,7 +151,10 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestStream(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			// Need to register for RequestN frames
+			s := proxy.NewResponder(i.ctx, streamID, i.removeStream)
+			i.registerStream(s)
+			go i.handleRequestStream(i.ctx, s, v.Data, v.Metadata, v.InitialN)
 
 		case frames.FrameTypeRequestChannel:
 			// if i.checkFollows(&rc) {
@@ -164,16 +162,22 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 			// 	return
 			// }
 
-			go i.handleRequestChannel(i.ctx, streamID, v.Data, v.Metadata, v.InitialN)
+			s := proxy.NewResponder(i.ctx, streamID, i.removeStream)
+			in := i.receive(s)
+			i.registerStream(s)
+			go i.handleRequestChannel(i.ctx, s, in, v.Data, v.Metadata, v.InitialN)
 		}
 
 	case *frames.RequestN:
-		s := str.(DoRequest)
-		go s.DoRequest(int(v.N))
+		if s, ok := str.(DoRequest); ok {
+			go s.DoRequest(int(v.N))
+		}
 
 	case *frames.Cancel:
-		str.OnComplete()
-		i.removeStream(streamID)
+		str.OnCancel()
+		if !str.Open() {
+			i.removeStream(streamID)
+		}
 
 	case *frames.Payload:
 		// pl, ok := i.fragmentedPayloads[p.StreamID]
@@ -227,7 +231,9 @@ func (i *Handler) HandleFrame(f frames.Frame) (err error) {
 
 		if v.Complete {
 			str.OnComplete()
-			i.removeStream(streamID)
+			if !str.Open() {
+				i.removeStream(streamID)
+			}
 		}
 
 	case *frames.Error:
@@ -255,8 +261,7 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, proxy.NewResponder(ctx, streamID, i.removeStream))
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
 			i.sendFrame(&frames.Payload{
@@ -292,14 +297,14 @@ func (i *Handler) handleFireAndForget(ctx context.Context, streamID uint32, data
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, proxy.NewResponder(ctx, streamID, i.removeStream))
 	handler(ctx, p)
 }
 
-func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -310,12 +315,11 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
 	f := handler(ctx, p)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
@@ -339,15 +343,17 @@ func (i *Handler) handleRequestStream(ctx context.Context, streamID uint32, data
 				Data:     err.Error(),
 			})
 		},
+		Finally:   s.Responded,
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
 	s.Request(int(initialN))
+	s.Respond(f.Subscription())
 }
 
-func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder, in flux.Flux[payload.Payload], data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
 		return
 	}
 
@@ -358,28 +364,11 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
 	f := handler(ctx, p, in)
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
@@ -402,11 +391,28 @@ func (i *Handler) handleRequestChannel(ctx context.Context, streamID uint32, dat
 				Data:     err.Error(),
 			})
 		},
+		Finally:   s.Responded,
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
 	s.Request(int(initialN))
+	s.Respond(f.Subscription())
+}
+
+// receive returns the elements sent by the requester of a channel.
+func (i *Handler) receive(s *proxy.Responder) flux.Flux[payload.Payload] {
+	return s.Receive(
+		func(n int) {
+			i.sendFrame(&frames.RequestN{
+				StreamID: s.StreamID(),
+				N:        uint32(n),
+			})
+		},
+		func() {
+			i.sendFrame(&frames.Cancel{
+				StreamID: s.StreamID(),
+			})
+		},
+	)
 }
 
 // func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
@@ -685,41 +691,3 @@ func (i *Handler) checkMetadata(streamID uint32, metadata []byte) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
diff --git a/proxy/flux.go b/proxy/flux.go
index 6f0f588..3ce616c 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"sync"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,7 @@ import (
 	"github.com/nanobus/iota/go/rx/flux"
 )
 
-func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream)) flux.Flux[payload.Payload] {
+func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[payload.Payload], sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) flux.Flux[payload.Payload] {
 	p := flux.NewProcessor[payload.Payload]()
 	ss := streamFlux{
 		ctx:       ctx,
@@ -18,7 +19,9 @@ func Flux(ctx context.Context, request frames.RequestPayload, in flux.Flux[paylo
 		in:        in,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 		first:     true,
+		sending:   in != nil,
 	}
 	p.OnSubscribe(flux.OnSubscribe{
 		Request: ss.Request,
@@ -36,8 +39,15 @@ type streamFlux struct {
 	in         flux.Flux[payload.Payload]
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
-	first      bool
-	complete   bool
+	remove     func(streamID uint32)
+	out        demand // of the peer for in
+
+	mu        sync.Mutex // guards the fields below
+	first     bool
+	sent      bool
+	complete  bool
+	cancelled bool
+	sending   bool
 }
 
 func (s *streamFlux) Context() context.Context {
@@ -53,12 +63,39 @@ func (s *streamFlux) OnNext(p payload.Payload) {
 }
 
 func (s *streamFlux) OnComplete() {
+	s.end(true, false)
 	s.Processor.Complete()
-	s.complete = true
 }
 
 func (s *streamFlux) OnError(err error) {
+	s.end(true, true)
 	s.Processor.Error(err)
+	s.out.cancel()
+}
+
+// OnCancel tells that the peer wants no more of in.
+func (s *streamFlux) OnCancel() {
+	s.end(false, true)
+	s.out.cancel()
+}
+
+// end records that the response or in have ended.
+func (s *streamFlux) end(complete, sending bool) {
+	s.mu.Lock()
+	open := !s.complete || s.sending
+	s.complete = s.complete || complete
+	s.sending = s.sending && !sending
+	ended := open && s.complete && !s.sending
+	s.mu.Unlock()
+	if ended {
+		s.remove(s.request.StreamID)
+	}
+}
+
+func (s *streamFlux) Open() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	return !s.complete || s.sending
 }
 
 func (s *streamFlux) Async() {
@@ -74,13 +111,28 @@ func (s *streamFlux) Notify(fn rx.FnFinally) {
 }
 
 func (s *streamFlux) Request(n int) {
+	s.mu.Lock()
 	if s.complete {
+		s.mu.Unlock()
 		return
 	}
-	if s.first {
+	first := s.first
+	s.first = false
+	s.mu.Unlock()
+	if first {
 		s.request.InitialN = uint32(n)
-		s.first = false
-		s.sendFrame(&s.request)
+		if err := s.sendFrame(&s.request); err != nil {
+			s.OnError(err)
+			return
+		}
+		s.mu.Lock()
+		s.sent = true
+		cancelled := s.cancelled
+		s.mu.Unlock()
+		if cancelled {
+			s.sendCancel()
+			return
+		}
 
 		if s.in != nil {
 			s.in.Subscribe(flux.Subscribe[payload.Payload]{
@@ -97,15 +149,19 @@ func (s *streamFlux) Request(n int) {
 						StreamID: s.request.StreamID,
 						Complete: true,
 					})
+					s.end(false, true)
 				},
 				OnError: func(err error) {
 					s.sendFrame(&frames.Error{
 						StreamID: s.request.StreamID,
 						Data:     err.Error(),
 					})
+					s.end(true, true)
+					s.Processor.Error(err)
 				},
 				NoRequest: true,
 			})
+			s.out.attach(s.in.Subscription())
 		}
 	} else {
 		s.sendFrame(&frames.RequestN{
@@ -116,14 +172,31 @@ func (s *streamFlux) Request(n int) {
 }
 
 func (s *streamFlux) Cancel() {
+	s.mu.Lock()
+	sent := s.sent
+	ended := s.complete && !s.sending
+	s.cancelled = true
+	s.mu.Unlock()
+	if ended {
+		return
+	}
+	s.end(true, true)
+	s.out.cancel()
+	if sent {
+		s.sendCancel()
+	}
+}
+
+func (s *streamFlux) sendCancel() {
 	s.sendFrame(&frames.Cancel{
 		StreamID: s.request.StreamID,
 	})
 }
 
 func (s *streamFlux) DoRequest(n int) {
-	sub := s.in.Subscription()
-	sub.Request(n)
+	if s.in != nil {
+		s.out.request(n)
+	}
 }
 
 func (s *streamFlux) Subscribe(sub flux.Subscribe[payload.Payload]) flux.Flux[payload.Payload] {
diff --git a/proxy/mono.go b/proxy/mono.go
index 793a2a6..bd7b22f 100644
--- a/proxy/mono.go
+++ b/proxy/mono.go
@@ -2,6 +2,7 @@ package proxy
 
 import (
 	"context"
+	"errors"
 
 	"github.com/nanobus/iota/go/internal/frames"
 	"github.com/nanobus/iota/go/payload"
@@ -9,7 +10,9 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
-func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream)) mono.Mono[payload.Payload] {
+var errCancelled = errors.New("cancelled by peer")
+
+func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(frames.Frame) error, register func(Stream), remove func(streamID uint32)) mono.Mono[payload.Payload] {
 	m := mono.NewProcessor[payload.Payload]()
 	ss := streamMono{
 		ctx:       ctx,
@@ -17,6 +20,7 @@ func Mono(ctx context.Context, request frames.RequestPayload, sendFrame func(fra
 		request:   request,
 		sendFrame: sendFrame,
 		register:  register,
+		remove:    remove,
 	}
 	return &ss
 }
@@ -29,6 +33,7 @@ type streamMono struct {
 	request    frames.RequestPayload
 	sendFrame  func(frames.Frame) error
 	register   func(Stream)
+	remove     func(streamID uint32)
 }
 
 func (s *streamMono) Context() context.Context {
@@ -44,7 +49,16 @@ func (s *streamMono) OnNext(p payload.Payload) {
 }
 
 func (s *streamMono) OnComplete() {
-	// Not implemented
+	// Does nothing after a value.
+	s.Processor.Success(payload.New(nil))
+}
+
+func (s *streamMono) Open() bool {
+	return false // every terminal frame ends it
+}
+
+func (s *streamMono) OnCancel() {
+	s.Processor.Error(errCancelled)
 }
 
 func (s *streamMono) OnError(err error) {
@@ -67,6 +81,9 @@ func (s *streamMono) Subscribe(sub mono.Subscribe[payload.Payload]) mono.Mono[pa
 	s.subscribed = true
 	s.register(s)
 	s.Processor.Subscribe(sub)
-	s.sendFrame(&s.request)
+	if err := s.sendFrame(&s.request); err != nil {
+		s.remove(s.request.StreamID)
+		s.OnError(err)
+	}
 	return s
 }
diff --git a/proxy/mono_host.go b/proxy/mono_host.go
index 927c78b..cf43cb9 100644
--- a/proxy/mono_host.go
+++ b/proxy/mono_host.go
@@ -5,28 +5,13 @@ package proxy
 
 import (
 	"github.com/nanobus/iota/go/payload"
-	"github.com/nanobus/iota/go/rx/mono"
+	"github.com/nanobus/iota/go/rx"
 )
 
 func (s *streamMono) Block() (ret payload.Payload, err error) {
-	// if s.subscriber != nil && s.subscriber.closed {
-	// 	return s.subscriber.value, s.subscriber.err
-	// }
-
 	done := make(chan struct{})
-	go func() {
-		s.Subscribe(mono.Subscribe[payload.Payload]{
-			OnSuccess: func(value payload.Payload) {
-				ret = value
-				close(done)
-			},
-			OnError: func(e error) {
-				err = e
-				close(done)
-			},
-		})
-	}()
-
+	s.Async()
+	s.Notify(func(rx.SignalType) { close(done) })
 	<-done
-	return ret, err
+	return s.Get()
 }
diff --git a/proxy/responder.go b/proxy/responder.go
new file mode 100644
index 0000000..aa9895a
--- /dev/null
+++ b/proxy/responder.go
@@ -0,0 +1,173 @@
+package proxy
+
+import (
+	"context"
+	"sync"
+
+	"github.com/nanobus/iota/go/payload"
+	"github.com/nanobus/iota/go/rx"
+	"github.com/nanobus/iota/go/rx/flux"
+)
+
+// demand passes requests on to a subscription, or keeps them until there is one.
+type demand struct {
+	mu        sync.Mutex
+	sub       rx.Subscription
+	n         int
+	cancelled bool
+}
+
+func (d *demand) attach(sub rx.Subscription) {
+	d.mu.Lock()
+	d.sub = sub
+	n, cancelled := d.n, d.cancelled
+	d.mu.Unlock()
+	if cancelled {
+		sub.Cancel()
+	} else if n > 0 {
+		sub.Request(n)
+	}
+}
+
+func (d *demand) request(n int) {
+	d.mu.Lock()
+	sub := d.sub
+	if sub == nil {
+		d.n += n
+	}
+	d.mu.Unlock()
+	if sub != nil {
+		sub.Request(n)
+	}
+}
+
+func (d *demand) cancel() {
+	d.mu.Lock()
+	sub := d.sub
+	d.cancelled = true
+	d.mu.Unlock()
+	if sub != nil {
+		sub.Cancel()
+	}
+}
+
+// Responder is the stream of a request made by the peer. It is open until the response
+// and, for channels, the input have ended.
+type Responder struct {
+	streamID uint32
+	remove   func(streamID uint32)
+	response demand
+	in       flux.Processor[payload.Payload]
+
+	mu         sync.Mutex // guards the fields below
+	ctx        context.Context
+	responding bool
+	receiving  bool
+}
+
+var _ = (Stream)((*Responder)(nil))
+
+// NewResponder returns the stream of a request; remove is called once it has ended.
+func NewResponder(ctx context.Context, streamID uint32, remove func(streamID uint32)) *Responder {
+	return &Responder{
+		ctx:        ctx,
+		streamID:   streamID,
+		remove:     remove,
+		responding: true,
+	}
+}
+
+// Receive makes the stream a channel and returns its input.
+func (r *Responder) Receive(request func(n int), cancel func()) flux.Flux[payload.Payload] {
+	r.receiving = true
+	r.in = flux.NewProcessor[payload.Payload]()
+	r.in.OnSubscribe(flux.OnSubscribe{
+		Request: request,
+		Cancel: func() {
+			cancel()
+			r.end(false, true)
+		},
+	})
+	return r.in
+}
+
+// Respond starts passing the peer's requests on to the response.
+func (r *Responder) Respond(sub rx.Subscription) {
+	r.response.attach(sub)
+}
+
+// Responded tells that the response has ended with the signal.
+func (r *Responder) Responded(signal rx.SignalType) {
+	r.end(true, signal != rx.SignalComplete)
+}
+
+func (r *Responder) end(responding, receiving bool) {
+	r.mu.Lock()
+	open := r.responding || r.receiving
+	r.responding = r.responding && !responding
+	r.receiving = r.receiving && !receiving
+	ended := open && !r.responding && !r.receiving
+	r.mu.Unlock()
+	if ended {
+		r.remove(r.streamID)
+	}
+}
+
+func (r *Responder) Open() bool {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.responding || r.receiving
+}
+
+func (r *Responder) Context() context.Context {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	return r.ctx
+}
+
+func (r *Responder) SetContext(ctx context.Context) {
+	r.mu.Lock()
+	defer r.mu.Unlock()
+	r.ctx = ctx
+}
+
+func (r *Responder) StreamID() uint32 {
+	return r.streamID
+}
+
+func (r *Responder) Request(n int) {
+	r.response.request(n)
+}
+
+func (r *Responder) DoRequest(n int) {
+	r.response.request(n)
+}
+
+func (r *Responder) OnNext(p payload.Payload) {
+	if r.in != nil {
+		r.in.Next(p)
+	}
+}
+
+func (r *Responder) OnComplete() {
+	if r.in != nil {
+		r.in.Complete()
+		r.end(false, true)
+	}
+}
+
+func (r *Responder) OnError(err error) {
+	r.end(true, true)
+	if r.in != nil {
+		r.in.Error(err)
+	}
+	r.response.cancel()
+}
+
+func (r *Responder) OnCancel() {
+	r.end(true, true)
+	if r.in != nil {
+		r.in.Complete()
+	}
+	r.response.cancel()
+}
diff --git a/proxy/stream.go b/proxy/stream.go
index 941be46..5dd02a0 100644
--- a/proxy/stream.go
+++ b/proxy/stream.go
@@ -12,6 +12,8 @@ type Stream interface {
 	OnNext(p payload.Payload)
 	OnComplete()
 	OnError(err error)
+	OnCancel()
+	Open() bool
 }
 
 type streamKey struct{}
diff --git a/transport/wasmrs/guest/caller.go b/transport/wasmrs/guest/caller.go
index aae5224..c8ebb10 100644
--- a/transport/wasmrs/guest/caller.go
+++ b/transport/wasmrs/guest/caller.go
@@ -43,7 +43,7 @@ func (i *Caller) RequestResponse(ctx context.Context, p payload.Payload) mono.Mo
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, sendFrame, registerStream)
+	}, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -64,7 +64,7 @@ func (i *Caller) RequestStream(ctx context.Context, p payload.Payload) flux.Flux
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, sendFrame, registerStream)
+	}, nil, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -75,7 +75,7 @@ func (i *Caller) RequestChannel(ctx context.Context, p payload.Payload, in flux.
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, sendFrame, registerStream)
+	}, in, sendFrame, registerStream, removeStream)
 }
 
 func (i *Caller) getNextStreamID() uint32 {
diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index 82100c4..e6fe89f 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -12,7 +12,6 @@ import (
 	"github.com/nanobus/iota/go/invoke"
 	"github.com/nanobus/iota/go/payload"
 	"github.com/nanobus/iota/go/proxy"
-	"github.com/nanobus/iota/go/rx"
 	"github.com/nanobus/iota/go/rx/flux"
 	"github.com/nanobus/iota/go/rx/mono"
 )
@@ -190,8 +189,10 @@ func GuestSend(endPos uint32) {
 			}
 
 		case frames.FrameTypeCancel:
-			str.OnComplete()
-			removeStream(header.StreamID())
+			str.OnCancel()
+			if !str.Open() {
+				removeStream(header.StreamID())
+			}
 
 		case frames.FrameTypePayload:
 			var p frames.Payload
@@ -253,7 +254,9 @@ func GuestSend(endPos uint32) {
 
 			if p.Complete {
 				str.OnComplete()
-				removeStream(header.StreamID())
+				if !str.Open() {
+					removeStream(header.StreamID())
+				}
 			}
 
 		case frames.FrameTypeError:
@@ -284,17 +287,21 @@ func handleRequestResponse(ctx context.Context, streamID uint32, data, metadata
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, proxy.NewResponder(ctx, streamID, removeStream))
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			sendFrame(&frames.Error{
@@ -321,9 +328,7 @@ func handleFireAndForget(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata[8:])
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s)
-	ctx = proxy.WithContext(ctx, &s)
+	ctx = proxy.WithContext(ctx, proxy.NewResponder(ctx, streamID, removeStream))
 	handler(ctx, p)
 }
 
@@ -343,36 +348,10 @@ func handleRequestStream(ctx context.Context, streamID uint32, data, metadata []
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
+	s := proxy.NewResponder(ctx, streamID, removeStream)
+	registerStream(s) // Need to register for RequestN frames
 	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	respond(s, handler(ctx, p), initialN)
 }
 
 func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
@@ -391,51 +370,70 @@ func handleRequestChannel(ctx context.Context, streamID uint32, data, metadata [
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				sendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				sendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-			},
-		})
-	})
-	f := handler(ctx, p, in)
+	s := proxy.NewResponder(ctx, streamID, removeStream)
+	in := s.Receive(
+		func(n int) {
+			sendFrame(&frames.RequestN{
+				StreamID: streamID,
+				N:        uint32(n),
+			})
+		},
+		func() {
+			sendFrame(&frames.Cancel{
+				StreamID: streamID,
+			})
+		},
+	)
+	registerStream(s) // Need to register for RequestN frames
+	respond(s, handler(ctx, p, in), initialN)
+}
+
+// respond sends the elements of f as they are asked for.
+func respond(s *proxy.Responder, f flux.Flux[payload.Payload], initialN uint32) {
+	streamID := s.StreamID()
+	refused := false
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			sendFrame(&frames.Payload{
+			if refused {
+				return
+			}
+			if err := sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+				refused = true
+				s.OnCancel()
+			}
 		},
 		OnComplete: func() {
+			if refused {
+				return
+			}
 			sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			if refused {
+				return
+			}
 			sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
 		},
+		Finally:   s.Responded,
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
 	s.Request(int(initialN))
+	s.Respond(f.Subscription())
 }
 
 func checkMetadata(streamID uint32, metadata []byte) bool {
@@ -549,44 +547,6 @@ type DoRequest interface {
 	DoRequest(n int)
 }
 
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-
 //go:inline
 func bytesToPointer(s []byte) uintptr {
 	//nolint
diff --git a/transport/wasmrs/host/caller.go b/transport/wasmrs/host/caller.go
index 08062d7..63a7238 100644
--- a/transport/wasmrs/host/caller.go
+++ b/transport/wasmrs/host/caller.go
@@ -36,7 +36,7 @@ func (i *Instance) RequestResponse(ctx context.Context, p payload.Payload) mono.
 		Data:      p.Data(),
 		Complete:  true,
 		InitialN:  1,
-	}, i.SendFrame, i.registerStream)
+	}, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) FireAndForget(ctx context.Context, p payload.Payload) {
@@ -57,7 +57,7 @@ func (i *Instance) RequestStream(ctx context.Context, p payload.Payload) flux.Fl
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, nil, i.SendFrame, i.registerStream)
+	}, nil, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
@@ -67,7 +67,7 @@ func (i *Instance) RequestChannel(ctx context.Context, p payload.Payload, in flu
 		Metadata:  p.Metadata(),
 		Data:      p.Data(),
 		InitialN:  rx.RequestMax,
-	}, in, i.SendFrame, i.registerStream)
+	}, in, i.SendFrame, i.registerStream, i.removeStream)
 }
 
 func (i *Instance) getNextStreamID() uint32 {
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index d608369..cc36497 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -345,7 +345,9 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestStream(ctx, rs.StreamID, rs.Data, rs.Metadata, rs.InitialN)
+		s := proxy.NewResponder(ctx, rs.StreamID, i.removeStream)
+		i.registerStream(s) // Need to register for RequestN frames
+		go i.handleRequestStream(ctx, s, rs.Data, rs.Metadata, rs.InitialN)
 
 	case frames.FrameTypeRequestChannel:
 		var rc frames.RequestPayload
@@ -362,7 +364,10 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 		i.activeRequests.Add(1)
-		go i.handleRequestChannel(ctx, rc.StreamID, rc.Data, rc.Metadata, rc.InitialN)
+		s := proxy.NewResponder(ctx, rc.StreamID, i.removeStream)
+		in := i.receive(s)
+		i.registerStream(s) // Need to register for RequestN frames
+		go i.handleRequestChannel(ctx, s, in, rc.Data, rc.Metadata, rc.InitialN)
 
 	case frames.FrameTypeRequestN:
 		var rn frames.RequestN
@@ -379,8 +384,10 @@ func (i *Instance) recvOne(data []byte) {
 		}
 
 	case frames.FrameTypeCancel:
-		str.OnComplete()
-		i.removeStream(header.StreamID())
+		str.OnCancel()
+		if !str.Open() {
+			i.removeStream(header.StreamID())
+		}
 
 	case frames.FrameTypePayload:
 		var p frames.Payload
@@ -439,7 +446,9 @@ func (i *Instance) recvOne(data []byte) {
 
 		if p.Complete {
 			str.OnComplete()
-			i.removeStream(header.StreamID())
+			if !str.Open() {
+				i.removeStream(header.StreamID())
+			}
 		}
 
 	case frames.FrameTypeError:
@@ -455,6 +464,7 @@ func (i *Instance) recvOne(data []byte) {
 
 func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, data, metadata []byte) {
 	if !i.checkMetadata(streamID, metadata) {
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -477,20 +487,26 @@ func (i *Instance) handleRequestResponse(ctx context.Context, streamID uint32, d
 	p := payload.New(data, metadata)
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
-			i.reduceActiveRequests()
+			}); err != nil {
+				i.SendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
+		},
+		Finally: func(rx.SignalType) {
 			i.reduceActiveRequests()
 		},
 	})
@@ -520,8 +536,11 @@ func (i *Instance) handleFireAndForget(ctx context.Context, streamID uint32, dat
 	handler(ctx, p)
 }
 
-func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestStream(ctx context.Context, s *proxy.Responder, data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -530,6 +549,7 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 	if parentStreamID != 0 {
 		if stream, ok := i.getStream(parentStreamID); ok {
 			ctx = stream.Context()
+			s.SetContext(ctx)
 		}
 	}
 	handlerRS := i.getRequestStreamHandler(operationID)
@@ -538,44 +558,20 @@ func (i *Instance) handleRequestStream(ctx context.Context, streamID uint32, dat
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
+		i.reduceActiveRequests()
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{ctx: ctx, streamID: streamID}
-	f := handlerRS(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.SendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-			i.reduceActiveRequests()
-		},
-		OnError: func(err error) {
-			i.SendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-			i.reduceActiveRequests()
-		},
-		NoRequest: true,
-	})
-	sub := f.Subscription()
-	s.sub = sub
-	s.Request(int(initialN))
+	i.respond(s, handlerRS(ctx, p), initialN)
 }
 
-func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, data, metadata []byte, initialN uint32) {
+func (i *Instance) handleRequestChannel(ctx context.Context, s *proxy.Responder, in flux.Flux[payload.Payload], data, metadata []byte, initialN uint32) {
+	streamID := s.StreamID()
 	if !i.checkMetadata(streamID, metadata) {
+		i.removeStream(streamID)
+		i.reduceActiveRequests()
 		return
 	}
 
@@ -584,6 +580,7 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 	if parentStreamID != 0 {
 		if stream, ok := i.getStream(parentStreamID); ok {
 			ctx = stream.Context()
+			s.SetContext(ctx)
 		}
 	}
 	handlerRC := i.getRequestChannelHandler(operationID)
@@ -592,59 +589,81 @@ func (i *Instance) handleRequestChannel(ctx context.Context, streamID uint32, da
 			StreamID: streamID,
 			Data:     "not_found",
 		})
+		i.removeStream(streamID)
 		i.reduceActiveRequests()
 		return
 	}
 
 	p := payload.New(data, metadata)
-	s := requestStream{streamID: streamID}
-	i.registerStream(&s) // Need to register for RequestN frames
-	in := flux.Create(func(sink flux.Sink[payload.Payload]) {
-		s.sink = sink
-		sink.OnSubscribe(flux.OnSubscribe{
-			Request: func(n int) {
-				i.SendFrame(&frames.RequestN{
-					StreamID: streamID,
-					N:        uint32(n),
-				})
-			},
-			Cancel: func() {
-				i.SendFrame(&frames.Cancel{
-					StreamID: streamID,
-				})
-				i.reduceActiveRequests()
-			},
-		})
-	})
-	f := handlerRC(ctx, p, in)
+	i.respond(s, handlerRC(ctx, p, in), initialN)
+}
+
+// respond sends the elements of f as they are asked for.
+func (i *Instance) respond(s *proxy.Responder, f flux.Flux[payload.Payload], initialN uint32) {
+	streamID := s.StreamID()
+	refused := false
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.SendFrame(&frames.Payload{
+			if refused {
+				return
+			}
+			if err := i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				i.SendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+				refused = true
+				s.OnCancel()
+			}
 		},
 		OnComplete: func() {
+			if refused {
+				return
+			}
 			i.SendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
-			i.reduceActiveRequests()
 		},
 		OnError: func(err error) {
+			if refused {
+				return
+			}
 			i.SendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
 			})
+		},
+		Finally: func(signal rx.SignalType) {
+			s.Responded(signal)
 			i.reduceActiveRequests()
 		},
 		NoRequest: true,
 	})
-	sub := f.Subscription()
-	s.sub = sub
 	s.Request(int(initialN))
+	s.Respond(f.Subscription())
+}
+
+// receive returns the elements sent by the requester of a channel.
+func (i *Instance) receive(s *proxy.Responder) flux.Flux[payload.Payload] {
+	return s.Receive(
+		func(n int) {
+			i.SendFrame(&frames.RequestN{
+				StreamID: s.StreamID(),
+				N:        uint32(n),
+			})
+		},
+		func() {
+			i.SendFrame(&frames.Cancel{
+				StreamID: s.StreamID(),
+			})
+		},
+	)
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
@@ -732,41 +751,3 @@ func (i *Instance) checkFollows(requestFrame *frames.RequestPayload) bool {
 type DoRequest interface {
 	DoRequest(n int)
 }
-
-type requestStream struct {
-	ctx      context.Context
-	streamID uint32
-	flux.Sink[payload.Payload]
-	sub  rx.Subscription
-	sink flux.Sink[payload.Payload]
-}
-
-var _ = (proxy.Stream)((*requestStream)(nil))
-
-func (r *requestStream) Context() context.Context {
-	return r.ctx
-}
-
-func (r *requestStream) StreamID() uint32 {
-	return r.streamID
-}
-
-func (r *requestStream) Request(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) DoRequest(n int) {
-	r.sub.Request(n)
-}
-
-func (r *requestStream) OnNext(p payload.Payload) {
-	r.sink.Next(p)
-}
-
-func (r *requestStream) OnComplete() {
-	r.sink.Complete()
-}
-
-func (r *requestStream) OnError(err error) {
-	r.sink.Error(err)
-}
-- 
2.43.0


From bed233eff0ba874c5e4681d7b8a4c2ae4deff7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:05 +0000
Subject: [PATCH 43/59] fix: keep frames that arrive together with the end of a
 stream

---
 transport/rsocket/decoder.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/transport/rsocket/decoder.go b/transport/rsocket/decoder.go
index 7e9be2e..691b5bb 100644
--- a/transport/rsocket/decoder.go
+++ b/transport/rsocket/decoder.go
@@ -42,9 +42,7 @@ func (p *LengthBasedFrameDecoder) Read() (raw []byte, err error) {
 }
 
 func doSplit(data []byte, eof bool) (advance int, token []byte, err error) {
-	if eof {
-		return
-	}
+	// Whole frames that arrive together with the end of the stream still count.
 	if len(data) < lengthFieldSize {
 		return
 	}
-- 
2.43.0


From 2957d320937b4abbaa95dcf6b751b13e788946da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:46 +0000
Subject: [PATCH 44/59] fix: keep frames read from a connection and refuse to
 write oversized ones

---
 transport/rsocket/tcp_conn.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/tcp_conn.go b/transport/rsocket/tcp_conn.go
index d414878..556c411 100644
--- a/transport/rsocket/tcp_conn.go
+++ b/transport/rsocket/tcp_conn.go
@@ -46,6 +46,9 @@ func (p *TCPConn) Read() (f frames.Frame, err error) {
 		return
 	}
 
+	// The buffer of the decoder is used again for the next frame.
+	raw = append([]byte(nil), raw...)
+
 	header := frames.ParseFrameHeader(raw)
 	buffer := raw[frames.FrameHeaderLen:]
 
@@ -104,7 +107,10 @@ func (p *TCPConn) Write(frame frames.Frame) (err error) {
 	// if p.counter != nil && frame.Header().Resumable() {
 	// 	p.counter.IncWriteBytes(size)
 	// }
-	_, err = u24.MustNewUint24(size).WriteTo(p.writer)
+	length, err := u24.NewUint24(size)
+	if err == nil {
+		_, err = length.WriteTo(p.writer)
+	}
 	if err != nil {
 		err = fmt.Errorf("write frame failed: %w", err)
 		return
-- 
2.43.0


From c4ba198bc895f2dbc777d6a9edc1165fbde8307d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:46 +0000
Subject: [PATCH 45/59] fix: serialize sending on a connection

---
 transport/rsocket/transport.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index c547611..52acc78 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -50,6 +50,7 @@ type ServerTransport interface {
 // Transport is RSocket transport which is used to carry RSocket frames.
 type Transport struct {
 	conn        Conn
+	mu          sync.Mutex // guards writing to conn
 	maxLifetime time.Duration
 	once        sync.Once
 	handler     DuplexHandler
@@ -66,7 +67,9 @@ func NewTransport(c Conn, handler DuplexHandler, isServer bool) *Transport {
 		isServer:    isServer,
 		ready:       make(chan struct{}),
 	}
-	handler.SetFrameSender(t.handler.HandleFrame)
+	handler.SetFrameSender(func(frame frames.Frame) error {
+		return t.Send(frame, true)
+	})
 	return &t
 }
 
@@ -108,6 +111,8 @@ func (p *Transport) Send(frame frames.Frame, flush bool) (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	err = p.conn.Write(frame)
 	if err != nil {
 		return
@@ -125,6 +130,8 @@ func (p *Transport) Flush() (err error) {
 		err = errTransportClosed
 		return
 	}
+	p.mu.Lock()
+	defer p.mu.Unlock()
 	err = p.conn.Flush()
 	return
 }
-- 
2.43.0


From 12918b4e8c3474b4c422cb67c85773a5c41efd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:34 +0000
Subject: [PATCH 46/59] fix: return from Start when the context ends or a
 handler fails

---
 transport/rsocket/transport.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index 52acc78..58c1cd0 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -172,6 +172,7 @@ func (p *Transport) loopReadBuffer(ctx context.Context, bf *buffer.Unbounded[fra
 		if err != nil {
 			select {
 			case errCh <- err:
+				_ = p.Close() // stop reading
 			default:
 			}
 		}
@@ -202,9 +203,23 @@ func (p *Transport) Start(ctx context.Context) error {
 
 	go p.loopReadBuffer(ctx, framesBuffer, errChan, done)
 
+	// Stop reading when the context ends.
+	stopped := make(chan struct{})
+	defer close(stopped)
+	go func() {
+		select {
+		case <-ctx.Done():
+			_ = p.Close()
+		case <-stopped:
+		}
+	}()
+
 	if p.isServer {
 		first, err := p.ReadFirst(ctx)
 		if err != nil {
+			if ctx.Err() != nil {
+				return ctx.Err()
+			}
 			return fmt.Errorf("read first failed: %w", err)
 		}
 		if setup, ok := first.(*frames.Setup); ok {
@@ -226,6 +241,16 @@ func (p *Transport) Start(ctx context.Context) error {
 			return fmt.Errorf("dispatch incoming frame failed: %w", err)
 		default:
 			f, err := p.conn.Read()
+			if err != nil {
+				select {
+				case err := <-errChan:
+					return fmt.Errorf("dispatch incoming frame failed: %w", err)
+				default:
+				}
+				if ctx.Err() != nil {
+					return ctx.Err()
+				}
+			}
 			if err == io.EOF {
 				return nil
 			}
-- 
2.43.0


From 169807d58ce2c14d918664cb369ce9509c726ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 47/59] fix: stop listening when the server is closed before or
 while it starts to

---
 transport/rsocket/tcp_transport.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 26dfd57..5ff7a53 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -52,12 +52,17 @@ func (t *tcpServerTransport) Close() (err error) {
 }
 
 func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (err error) {
-	t.l, err = t.lf(ctx)
+	l, err := t.lf(ctx)
 	if err != nil {
 		notifier <- false
 		err = fmt.Errorf("listen tcp server failed: %w", err)
 		return
 	}
+	if !t.setListener(l) {
+		_ = l.Close()
+		notifier <- false
+		return
+	}
 
 	defer func() {
 		_ = t.Close()
@@ -79,7 +84,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	// Start loop of accepting connections.
 	for {
 		var c net.Conn
-		c, err = t.l.Accept()
+		c, err = l.Accept()
 		if err == io.EOF || isClosedErr(err) {
 			err = nil
 			break
@@ -111,6 +116,19 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 	return
 }
 
+// setListener records what Close has to close unless it has been called already.
+func (t *tcpServerTransport) setListener(l net.Listener) bool {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	select {
+	case <-t.done:
+		return false
+	default:
+		t.l = l
+		return true
+	}
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
-- 
2.43.0


From ef6c5737abc75fd16452655ca776c507da0566cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 48/59] fix: close a connection that arrives while the server
 is being closed

---
 transport/rsocket/tcp_transport.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 5ff7a53..5adb1db 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -110,6 +110,7 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 				})
 			}()
 		} else {
+			_ = tp.Close()
 			_ = t.Close()
 		}
 	}
-- 
2.43.0


From c9a2bb3432fcb56433dfd5d989f9d76994dce812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:24 +0000
Subject: [PATCH 49/59] fix: leave nothing behind of refused and ended server
 connections

---
 transport/rsocket/tcp_transport.go | 19 ++++++++++++++++---
 transport/rsocket/transport.go     | 15 +++++++++++++++
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/transport/rsocket/tcp_transport.go b/transport/rsocket/tcp_transport.go
index 5adb1db..d47ae84 100644
--- a/transport/rsocket/tcp_transport.go
+++ b/transport/rsocket/tcp_transport.go
@@ -102,10 +102,17 @@ func (t *tcpServerTransport) Listen(ctx context.Context, notifier chan<- bool) (
 		})
 
 		if t.putTransport(tp) {
-			go tp.Start(ctx)
+			ended := make(chan struct{})
 			go func() {
-				tp.WaitUntilReady()
-				t.acceptor(ctx, h, func(tp *Transport) {
+				defer close(ended)
+				defer t.removeTransport(tp)
+				_ = tp.Start(ctx)
+			}()
+			go func() {
+				if !tp.readyBefore(ended) {
+					return
+				}
+				t.getAcceptor()(ctx, h, func(tp *Transport) {
 					t.removeTransport(tp)
 				})
 			}()
@@ -130,6 +137,12 @@ func (t *tcpServerTransport) setListener(l net.Listener) bool {
 	}
 }
 
+func (t *tcpServerTransport) getAcceptor() ServerTransportAcceptor {
+	t.mu.Lock()
+	defer t.mu.Unlock()
+	return t.acceptor
+}
+
 func (t *tcpServerTransport) removeTransport(tp *Transport) {
 	t.mu.Lock()
 	defer t.mu.Unlock()
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index 58c1cd0..8534140 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -266,3 +266,18 @@ func (p *Transport) Start(ctx context.Context) error {
 func (p *Transport) WaitUntilReady() {
 	<-p.ready
 }
+
+// readyBefore waits until the transport is ready or has ended and tells whether it got ready.
+func (p *Transport) readyBefore(ended <-chan struct{}) bool {
+	select {
+	case <-p.ready:
+		return true
+	case <-ended:
+	}
+	select {
+	case <-p.ready:
+		return true
+	default:
+		return false
+	}
+}
-- 
2.43.0


From 9a8bd5afe37773f8bb82e03c3e3ee55db14f7ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:55 +0000
Subject: [PATCH 50/59] fix: read empty custom sections and check sizes before
 allocating

---
 transport/wasmrs/customsections/customsections.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/transport/wasmrs/customsections/customsections.go b/transport/wasmrs/customsections/customsections.go
index 480e332..df211cc 100644
--- a/transport/wasmrs/customsections/customsections.go
+++ b/transport/wasmrs/customsections/customsections.go
@@ -106,6 +106,10 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 		return "", 0, fmt.Errorf("failed to read %s size: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
 	}
 
+	if int64(size) > int64(r.Len()) {
+		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), io.ErrUnexpectedEOF)
+	}
+
 	buf := make([]byte, size)
 	if _, err = io.ReadFull(r, buf); err != nil {
 		return "", 0, fmt.Errorf("failed to read %s: %w", fmt.Sprintf(contextFormat, contextArgs...), err)
@@ -122,8 +126,12 @@ func decodeUTF8(r *bytes.Reader, contextFormat string, contextArgs ...interface{
 //
 // See https://www.w3.org/TR/2019/REC-wasm-core-1-20191205/#custom-section%E2%91%A0
 func decodeCustomSection(r *bytes.Reader, name string, limit uint64) (result *wasm.CustomSection, err error) {
+	if limit > uint64(r.Len()) {
+		return nil, io.ErrUnexpectedEOF
+	}
+
 	buf := make([]byte, limit)
-	_, err = r.Read(buf)
+	_, err = io.ReadFull(r, buf)
 
 	result = &wasm.CustomSection{
 		Name: name,
-- 
2.43.0


From eb4ee7187c60efc9df0ac7cf4c1b3cb83dba9975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:55 +0000
Subject: [PATCH 51/59] fix: keep imported operations by index without
 allocating up to it and without racing requests

---
 transport/wasmrs/host/instance.go | 69 +++++++++++++++----------------
 1 file changed, 33 insertions(+), 36 deletions(-)

diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index cc36497..8147330 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -51,10 +51,31 @@ type Instance struct {
 	fragmentedPayloads map[uint32]fragmentedPayload
 	operations         operations.Table
 
-	importedRR   []invoke.RequestResponseHandler
-	importedRFNF []invoke.FireAndForgetHandler
-	importedRS   []invoke.RequestStreamHandler
-	importedRC   []invoke.RequestChannelHandler
+	importedRR   handlers[invoke.RequestResponseHandler]
+	importedRFNF handlers[invoke.FireAndForgetHandler]
+	importedRS   handlers[invoke.RequestStreamHandler]
+	importedRC   handlers[invoke.RequestChannelHandler]
+}
+
+// handlers keeps the handlers of one kind by their index, which the guest chooses.
+type handlers[H any] struct {
+	mu      sync.RWMutex
+	indexed map[uint32]H
+}
+
+func (h *handlers[H]) set(index uint32, handler H) {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	if h.indexed == nil {
+		h.indexed = make(map[uint32]H)
+	}
+	h.indexed[index] = handler
+}
+
+func (h *handlers[H]) get(index uint32) H {
+	h.mu.RLock()
+	defer h.mu.RUnlock()
+	return h.indexed[index]
 }
 
 var (
@@ -667,59 +688,35 @@ func (i *Instance) receive(s *proxy.Responder) flux.Flux[payload.Payload] {
 }
 
 func (i *Instance) SetRequestResponseHandler(index uint32, handler invoke.RequestResponseHandler) {
-	for uint32(len(i.importedRR)) < index+1 {
-		i.importedRR = append(i.importedRR, nil)
-	}
-	i.importedRR[index] = handler
+	i.importedRR.set(index, handler)
 }
 
 func (i *Instance) getRequestResponseHandler(index uint32) invoke.RequestResponseHandler {
-	if uint32(len(i.importedRR)) <= index {
-		return nil
-	}
-	return i.importedRR[index]
+	return i.importedRR.get(index)
 }
 
 func (i *Instance) SetFireAndForgetHandler(index uint32, handler invoke.FireAndForgetHandler) {
-	for uint32(len(i.importedRFNF)) < index+1 {
-		i.importedRFNF = append(i.importedRFNF, nil)
-	}
-	i.importedRFNF[index] = handler
+	i.importedRFNF.set(index, handler)
 }
 
 func (i *Instance) getFireAndForgetHandler(index uint32) invoke.FireAndForgetHandler {
-	if uint32(len(i.importedRFNF)) <= index {
-		return nil
-	}
-	return i.importedRFNF[index]
+	return i.importedRFNF.get(index)
 }
 
 func (i *Instance) SetRequestStreamHandler(index uint32, handler invoke.RequestStreamHandler) {
-	for uint32(len(i.importedRS)) < index+1 {
-		i.importedRS = append(i.importedRS, nil)
-	}
-	i.importedRS[index] = handler
+	i.importedRS.set(index, handler)
 }
 
 func (i *Instance) getRequestStreamHandler(index uint32) invoke.RequestStreamHandler {
-	if uint32(len(i.importedRS)) <= index {
-		return nil
-	}
-	return i.importedRS[index]
+	return i.importedRS.get(index)
 }
 
 func (i *Instance) SetRequestChannelHandler(index uint32, handler invoke.RequestChannelHandler) {
-	for uint32(len(i.importedRC)) < index+1 {
-		i.importedRC = append(i.importedRC, nil)
-	}
-	i.importedRC[index] = handler
+	i.importedRC.set(index, handler)
 }
 
 func (i *Instance) getRequestChannelHandler(index uint32) invoke.RequestChannelHandler {
-	if uint32(len(i.importedRC)) <= index {
-		return nil
-	}
-	return i.importedRC[index]
+	return i.importedRC.get(index)
 }
 
 func (i *Instance) checkMetadata(streamID uint32, metadata []byte) bool {
-- 
2.43.0


From 4f99078f569569d07f78b6ab3f9a2099f32e9369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:56 +0000
Subject: [PATCH 52/59] fix: tell mesh operations of different types with the
 same name apart

---
 transport/wasmrs/mesh/mesh.go | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 0ba06f8..7ad87bc 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -22,10 +22,17 @@ type (
 	Mesh struct {
 		verbose     bool
 		instances   map[string]*host.Instance
-		exports     map[string]map[string]*atomic.Pointer[destination]
+		exports     map[string]map[export]*atomic.Pointer[destination]
 		unsatisfied []*pending
 	}
 
+	// export identifies an operation in its namespace. Operations of
+	// different types are different even if they have the same name.
+	export struct {
+		requestType operations.RequestType
+		operation   string
+	}
+
 	destination struct {
 		instance *host.Instance
 		index    uint32
@@ -48,7 +55,7 @@ func WithVerbose() Option {
 func New(opts ...Option) *Mesh {
 	m := Mesh{
 		instances:   make(map[string]*host.Instance),
-		exports:     map[string]map[string]*atomic.Pointer[destination]{},
+		exports:     map[string]map[export]*atomic.Pointer[destination]{},
 		unsatisfied: make([]*pending, 0, 10),
 	}
 
@@ -65,7 +72,7 @@ func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[export{operations.RequestResponse, operation}]
 	if !ok {
 		return nil
 	}
@@ -80,7 +87,7 @@ func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p
 		return
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[export{operations.FireAndForget, operation}]
 	if !ok {
 		return
 	}
@@ -95,7 +102,7 @@ func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[export{operations.RequestStream, operation}]
 	if !ok {
 		return nil
 	}
@@ -110,7 +117,7 @@ func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string,
 		return nil
 	}
 
-	ptr, ok := ns[operation]
+	ptr, ok := ns[export{operations.RequestChannel, operation}]
 	if !ok {
 		return nil
 	}
@@ -193,13 +200,14 @@ func (m *Mesh) linkOperations(inst *host.Instance) {
 		case operations.Export:
 			ns, ok := m.exports[op.Namespace]
 			if !ok {
-				ns = make(map[string]*atomic.Pointer[destination])
+				ns = make(map[export]*atomic.Pointer[destination])
 				m.exports[op.Namespace] = ns
 			}
-			ptr, ok := ns[op.Operation]
+			e := export{op.Type, op.Operation}
+			ptr, ok := ns[e]
 			if !ok {
 				ptr = &atomic.Pointer[destination]{}
-				ns[op.Operation] = ptr
+				ns[e] = ptr
 			}
 
 			ptr.Store(&destination{
@@ -240,7 +248,7 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 		return false
 	}
 
-	ptr, ok := ns[op.Operation]
+	ptr, ok := ns[export{op.Type, op.Operation}]
 	if !ok {
 		return false
 	}
-- 
2.43.0


From 448d7c2057c2a9df5fa7b38948cc08060007dd31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:56 +0000
Subject: [PATCH 53/59] fix: route linked imports to the current instance after
 a module is loaded again

---
 transport/wasmrs/mesh/mesh.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 7ad87bc..699401b 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -252,17 +252,25 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	if !ok {
 		return false
 	}
-	dest := ptr.Load()
 
+	// The destination is looked up by each call: it changes when its module is loaded again.
 	switch op.Type {
 	case operations.RequestResponse:
-		inst.SetRequestResponseHandler(op.Index, dest.RequestResponse)
+		inst.SetRequestResponseHandler(op.Index, func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+			return ptr.Load().RequestResponse(ctx, p)
+		})
 	case operations.FireAndForget:
-		inst.SetFireAndForgetHandler(op.Index, dest.FireAndForget)
+		inst.SetFireAndForgetHandler(op.Index, func(ctx context.Context, p payload.Payload) {
+			ptr.Load().FireAndForget(ctx, p)
+		})
 	case operations.RequestStream:
-		inst.SetRequestStreamHandler(op.Index, dest.RequestStream)
+		inst.SetRequestStreamHandler(op.Index, func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestStream(ctx, p)
+		})
 	case operations.RequestChannel:
-		inst.SetRequestChannelHandler(op.Index, dest.RequestChannel)
+		inst.SetRequestChannelHandler(op.Index, func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+			return ptr.Load().RequestChannel(ctx, p, in)
+		})
 	}
 
 	return true
-- 
2.43.0


From fd47ce724f5d060794d0ec8ba4858d7b2840a5af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:56 +0000
Subject: [PATCH 54/59] fix: tolerate short metadata in mesh calls and leave
 the callers metadata alone

---
 transport/wasmrs/mesh/mesh.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index 699401b..b6fd137 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -276,34 +276,34 @@ func (m *Mesh) linkOperation(inst *host.Instance, op operations.Operation) bool
 	return true
 }
 
-func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+// address returns p with the index of the operation in its metadata, if it has any.
+func (d *destination) address(p payload.Payload) payload.Payload {
 	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
+	if len(md) < 4 {
+		return p
 	}
+	// The caller may use its metadata again before the request is sent.
+	md = append([]byte(nil), md...)
+	binary.BigEndian.PutUint32(md, d.index)
+	return payload.New(p.Data(), md)
+}
+
+func (d *destination) RequestResponse(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
+	p = d.address(p)
 	return d.instance.RequestResponse(ctx, p)
 }
 
 func (d *destination) FireAndForget(ctx context.Context, p payload.Payload) {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	d.instance.FireAndForget(ctx, p)
 }
 
 func (d *destination) RequestStream(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestStream(ctx, p)
 }
 
 func (d *destination) RequestChannel(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
-	md := p.Metadata()
-	if md != nil {
-		binary.BigEndian.PutUint32(md, d.index)
-	}
+	p = d.address(p)
 	return d.instance.RequestChannel(ctx, p, in)
 }
-- 
2.43.0


From c8d2151715fe028388e7d6bfd63824a23e877855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:56 +0000
Subject: [PATCH 55/59] fix: guard the mesh against modules being loaded during
 calls

---
 transport/wasmrs/mesh/mesh.go | 58 +++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/transport/wasmrs/mesh/mesh.go b/transport/wasmrs/mesh/mesh.go
index b6fd137..17beb68 100644
--- a/transport/wasmrs/mesh/mesh.go
+++ b/transport/wasmrs/mesh/mesh.go
@@ -5,6 +5,7 @@ import (
 	"encoding/binary"
 	"fmt"
 	"os"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -21,6 +22,7 @@ import (
 type (
 	Mesh struct {
 		verbose     bool
+		mu          sync.RWMutex
 		instances   map[string]*host.Instance
 		exports     map[string]map[export]*atomic.Pointer[destination]
 		unsatisfied []*pending
@@ -67,67 +69,68 @@ func New(opts ...Option) *Mesh {
 }
 
 func (m *Mesh) RequestResponse(ctx context.Context, namespace, operation string, p payload.Payload) mono.Mono[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.find(namespace, export{operations.RequestResponse, operation})
+	if dest == nil {
 		return nil
 	}
 
-	ptr, ok := ns[export{operations.RequestResponse, operation}]
-	if !ok {
-		return nil
-	}
-	dest := ptr.Load()
-
 	return dest.RequestResponse(ctx, p)
 }
 
 func (m *Mesh) FireAndForget(ctx context.Context, namespace, operation string, p payload.Payload) {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.find(namespace, export{operations.FireAndForget, operation})
+	if dest == nil {
 		return
 	}
 
-	ptr, ok := ns[export{operations.FireAndForget, operation}]
-	if !ok {
-		return
-	}
-	dest := ptr.Load()
-
 	dest.FireAndForget(ctx, p)
 }
 
 func (m *Mesh) RequestStream(ctx context.Context, namespace, operation string, p payload.Payload) flux.Flux[payload.Payload] {
-	ns, ok := m.exports[namespace]
-	if !ok {
+	dest := m.find(namespace, export{operations.RequestStream, operation})
+	if dest == nil {
 		return nil
 	}
 
-	ptr, ok := ns[export{operations.RequestStream, operation}]
-	if !ok {
+	return dest.RequestStream(ctx, p)
+}
+
+func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+	dest := m.find(namespace, export{operations.RequestChannel, operation})
+	if dest == nil {
 		return nil
 	}
-	dest := ptr.Load()
 
-	return dest.RequestStream(ctx, p)
+	return dest.RequestChannel(ctx, p, in)
 }
 
-func (m *Mesh) RequestChannel(ctx context.Context, namespace, operation string, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
+// find returns the destination of an operation or nil.
+func (m *Mesh) find(namespace string, e export) *destination {
+	m.mu.RLock()
+	defer m.mu.RUnlock()
+
 	ns, ok := m.exports[namespace]
 	if !ok {
 		return nil
 	}
 
-	ptr, ok := ns[export{operations.RequestChannel, operation}]
+	ptr, ok := ns[e]
 	if !ok {
 		return nil
 	}
-	dest := ptr.Load()
 
-	return dest.RequestChannel(ctx, p, in)
+	return ptr.Load()
 }
 
 func (m *Mesh) Close() {
+	m.mu.RLock()
+	instances := make([]*host.Instance, 0, len(m.instances))
 	for _, inst := range m.instances {
+		instances = append(instances, inst)
+	}
+	m.mu.RUnlock()
+
+	for _, inst := range instances {
 		inst.Close()
 	}
 }
@@ -161,6 +164,9 @@ func (m *Mesh) LoadModule(ctx context.Context, filename string) (*host.Instance,
 		return nil, err
 	}
 
+	m.mu.Lock()
+	defer m.mu.Unlock()
+
 	// Close previously loaded instance.
 	existing, ok := m.instances[filename]
 	if ok {
-- 
2.43.0


From b307e0f90ca0fd3130c14d7c5e887a456dc73c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:29 +0000
Subject: [PATCH 56/59] fix: fail the calls that are open when a host instance
 is closed

---
 proxy/lookup.go                   | 13 +++++++++++++
 transport/wasmrs/host/instance.go |  4 ++++
 2 files changed, 17 insertions(+)

diff --git a/proxy/lookup.go b/proxy/lookup.go
index 3a3d686..42cd5f9 100644
--- a/proxy/lookup.go
+++ b/proxy/lookup.go
@@ -90,6 +90,19 @@ func (l *Lookup) Remove(id uint32) {
 	}
 }
 
+// Take removes all streams and returns them.
+func (l *Lookup) Take() (streams []Stream) {
+	l.mu.Lock()
+	defer l.mu.Unlock()
+
+	for n := l.head; n != nil; n = n.next {
+		streams = append(streams, n.stream)
+	}
+	l.head, l.tail, l.count = nil, nil, 0
+
+	return streams
+}
+
 func (l *Lookup) find(id uint32) *node {
 	for n := l.head; n != nil; n = n.next {
 		if n.stream.StreamID() == id {
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 8147330..2449d78 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -289,6 +289,10 @@ func (i *Instance) recvLoop() {
 		case buf := <-i.recvCh:
 			i.recvOne(buf)
 		case <-i.done:
+			// Nothing arrives for the streams that are still open.
+			for _, s := range append(i.hostStreams.Take(), i.guestStreams.Take()...) {
+				s.OnError(errClosed)
+			}
 			return
 		}
 	}
-- 
2.43.0


From 27459c02e0728a7352868bcceeeb0aebffcdad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:37 +0000
Subject: [PATCH 57/59] fix: fail calls whose response or input cannot be sent

---
 handler/handler.go | 65 +++++++++++++++++++++++-----------------------
 proxy/flux.go      | 21 +++++++++++++--
 2 files changed, 52 insertions(+), 34 deletions(-)

diff --git a/handler/handler.go b/handler/handler.go
index 843dd31..c55c0e5 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -264,13 +264,18 @@ func (i *Handler) handleRequestResponse(ctx context.Context, streamID uint32, da
 	ctx = proxy.WithContext(ctx, proxy.NewResponder(ctx, streamID, i.removeStream))
 	handler(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{
 		OnSuccess: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
 				Complete: true,
-			})
+			}); err != nil {
+				i.sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+			}
 		},
 		OnError: func(err error) {
 			i.sendFrame(&frames.Error{
@@ -321,33 +326,7 @@ func (i *Handler) handleRequestStream(ctx context.Context, s *proxy.Responder, d
 
 	p := payload.New(data, metadata)
 	// ctx := stream.WithContext(context.Background(), s)
-	f := handler(ctx, p)
-	f.Subscribe(flux.Subscribe[payload.Payload]{
-		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Metadata: p.Metadata(),
-				Data:     p.Data(),
-				Next:     true,
-			})
-		},
-		OnComplete: func() {
-			i.sendFrame(&frames.Payload{
-				StreamID: streamID,
-				Complete: true,
-			})
-		},
-		OnError: func(err error) {
-			i.sendFrame(&frames.Error{
-				StreamID: streamID,
-				Data:     err.Error(),
-			})
-		},
-		Finally:   s.Responded,
-		NoRequest: true,
-	})
-	s.Request(int(initialN))
-	s.Respond(f.Subscription())
+	i.respond(s, handler(ctx, p), initialN)
 }
 
 func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder, in flux.Flux[payload.Payload], data, metadata []byte, initialN uint32) {
@@ -369,23 +348,45 @@ func (i *Handler) handleRequestChannel(ctx context.Context, s *proxy.Responder,
 	}
 
 	p := payload.New(data, metadata)
-	f := handler(ctx, p, in)
+	i.respond(s, handler(ctx, p, in), initialN)
+}
+
+// respond sends the elements of f as they are asked for.
+func (i *Handler) respond(s *proxy.Responder, f flux.Flux[payload.Payload], initialN uint32) {
+	streamID := s.StreamID()
+	refused := false
 	f.Subscribe(flux.Subscribe[payload.Payload]{
 		OnNext: func(p payload.Payload) {
-			i.sendFrame(&frames.Payload{
+			if refused {
+				return
+			}
+			if err := i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Metadata: p.Metadata(),
 				Data:     p.Data(),
 				Next:     true,
-			})
+			}); err != nil {
+				refused = true
+				i.sendFrame(&frames.Error{
+					StreamID: streamID,
+					Data:     err.Error(),
+				})
+				s.OnCancel()
+			}
 		},
 		OnComplete: func() {
+			if refused {
+				return
+			}
 			i.sendFrame(&frames.Payload{
 				StreamID: streamID,
 				Complete: true,
 			})
 		},
 		OnError: func(err error) {
+			if refused {
+				return
+			}
 			i.sendFrame(&frames.Error{
 				StreamID: streamID,
 				Data:     err.Error(),
diff --git a/proxy/flux.go b/proxy/flux.go
index 3ce616c..9061571 100644
--- a/proxy/flux.go
+++ b/proxy/flux.go
@@ -135,16 +135,30 @@ func (s *streamFlux) Request(n int) {
 		}
 
 		if s.in != nil {
+			refused := false
 			s.in.Subscribe(flux.Subscribe[payload.Payload]{
 				OnNext: func(p payload.Payload) {
-					s.sendFrame(&frames.Payload{
+					if refused {
+						return
+					}
+					if err := s.sendFrame(&frames.Payload{
 						StreamID: s.request.StreamID,
 						Metadata: p.Metadata(),
 						Data:     p.Data(),
 						Next:     true,
-					})
+					}); err != nil {
+						refused = true
+						s.sendFrame(&frames.Error{
+							StreamID: s.request.StreamID,
+							Data:     err.Error(),
+						})
+						s.OnError(err)
+					}
 				},
 				OnComplete: func() {
+					if refused {
+						return
+					}
 					s.sendFrame(&frames.Payload{
 						StreamID: s.request.StreamID,
 						Complete: true,
@@ -152,6 +166,9 @@ func (s *streamFlux) Request(n int) {
 					s.end(false, true)
 				},
 				OnError: func(err error) {
+					if refused {
+						return
+					}
 					s.sendFrame(&frames.Error{
 						StreamID: s.request.StreamID,
 						Data:     err.Error(),
-- 
2.43.0


From 5fad178f1e1797b1701a2d585f37845d6ee9605e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:37 +0000
Subject: [PATCH 58/59] fix: report failures whose text exceeds the buffer

---
 transport/wasmrs/guest/guest.go   | 8 ++++++++
 transport/wasmrs/host/instance.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/transport/wasmrs/guest/guest.go b/transport/wasmrs/guest/guest.go
index e6fe89f..5040f7a 100644
--- a/transport/wasmrs/guest/guest.go
+++ b/transport/wasmrs/guest/guest.go
@@ -533,6 +533,14 @@ func sendFrame(f frames.Frame) error {
 func doSendFrame(f frames.Frame) error {
 	byteLength := f.Size()
 	if uint64(byteLength)+3 > uint64(len(hostBuffer)) {
+		// A failure is still reported, without its text.
+		if e, ok := f.(*frames.Error); ok && len(e.Data) > len(errTooLarge.Error()) {
+			return doSendFrame(&frames.Error{
+				StreamID: e.StreamID,
+				Code:     e.Code,
+				Data:     errTooLarge.Error(),
+			})
+		}
 		return errTooLarge
 	}
 	var length [4]byte
diff --git a/transport/wasmrs/host/instance.go b/transport/wasmrs/host/instance.go
index 2449d78..075189f 100644
--- a/transport/wasmrs/host/instance.go
+++ b/transport/wasmrs/host/instance.go
@@ -192,6 +192,14 @@ func (i *Instance) SendFrame(f frames.Frame) error {
 	// 	i.sendCh <- f
 	// }
 	if 3+uint64(f.Size()) > uint64(i.sendSize) {
+		// A failure is still reported, without its text.
+		if e, ok := f.(*frames.Error); ok && len(e.Data) > len(errTooLarge.Error()) {
+			return i.SendFrame(&frames.Error{
+				StreamID: e.StreamID,
+				Code:     e.Code,
+				Data:     errTooLarge.Error(),
+			})
+		}
 		return errTooLarge
 	}
 	select {
-- 
2.43.0


From 8736f373657fb9b8fc695ce63ecbfca97653eec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:09 +0000
Subject: [PATCH 59/59] fix: fail the calls that wait when a connection ends

---
 handler/handler.go             | 6 ++++++
 transport/rsocket/transport.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/handler/handler.go b/handler/handler.go
index c55c0e5..1f6830d 100644
--- a/handler/handler.go
+++ b/handler/handler.go
@@ -15,6 +15,8 @@ import (
 	"github.com/nanobus/iota/go/rx/mono"
 )
 
+var errClosed = errors.New("connection closed")
+
 type FrameSender func(f frames.Frame) error
 
 type Handler struct {
@@ -73,7 +75,11 @@ func (i *Handler) SetFrameSender(sendFrame func(f frames.Frame) error) {
 	i.sendFrame = sendFrame
 }
 
+// Close fails the streams that still wait for the peer.
 func (i *Handler) Close() error {
+	for _, s := range append(i.hostStreams.Take(), i.guestStreams.Take()...) {
+		s.OnError(errClosed)
+	}
 	return nil
 }
 
diff --git a/transport/rsocket/transport.go b/transport/rsocket/transport.go
index 8534140..9a8b388 100644
--- a/transport/rsocket/transport.go
+++ b/transport/rsocket/transport.go
@@ -199,6 +199,12 @@ func (p *Transport) Start(ctx context.Context) error {
 		framesBuffer.Dispose()
 
 		<-done
+
+		// Nothing arrives for the streams that are still open.
+		_ = p.Close()
+		if c, ok := p.handler.(io.Closer); ok {
+			_ = c.Close()
+		}
 	}()
 
 	go p.loopReadBuffer(ctx, framesBuffer, errChan, done)
-- 
2.43.0

