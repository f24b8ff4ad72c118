#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for ids, titles and statements)."""
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=a))
FR="internal/frames/"
# ---- frames ----
p("C01","Frame headers pack and unpack losslessly",
 "For every stream id (31 bits), frame type (6 bits) and flag set (10 bits), a frame header written by any of the header writers and parsed back yields exactly the same stream id, type and flags, occupies exactly 6 bytes and never disturbs the bytes after it. The reserved top bit of the stream id is ignored when parsing.",
 ["inputs"],"all 2^31 stream ids x 64 types x 1024 flag sets, and any 6 header bytes",
 "No test builds a header other than those of two sample frames; a field overlap shows only for particular type/flag bit patterns.",
 [FR+"frame_header.go",FR+"types.go"],[("pack/parse",FR+"frame_header.go")])
p("C02","Payload and request frames survive the wire exactly, in exactly Size bytes",
 "Encoding any payload frame or any of the four request frames into a buffer of its declared size and decoding it back yields the same stream id, type, metadata, data, follows/complete/next flags and initial request count (request-response and fire-and-forget frames always decode as complete with an initial count of 1; only channel requests carry completion and only stream and channel requests carry the count). The encoding fills exactly the declared size and writes nothing beyond it, for metadata up to the 24-bit length limit. The bytes are those of the RSocket frame format: the type and flag bits where the format puts them, and every number and length in big-endian order.",
 ["inputs"],"all stream ids, flag combinations, initial counts, and metadata/data contents of any length up to 2^24-1",
 "The tests never encode or decode a payload or request frame at all.",
 [FR+"payload.go",FR+"request_payload.go"],[("Encode/Decode/Size",FR+"payload.go"),("Encode/Decode/Size",FR+"request_payload.go")])
p("C03","Setup, error, request-n and cancel frames survive the wire exactly",
 "Encoding any setup, error, request-n or cancel frame into a buffer of its declared size and decoding it back yields equal field values: versions, keepalive and lifetime in whole milliseconds up to 2^32-1, resume token, both mime types (up to 255 bytes), metadata, data, lease flag, error code and text, request count, stream id. The encoding fills exactly the declared size. The bytes are those of the RSocket frame format: the type and flag bits where the format puts them, and every number and length in big-endian order.",
 ["inputs"],"all field values, token length < 2^16, mime length <= 255, metadata < 2^24, any data",
 "One test round-trips a single setup frame with no token, mime types, metadata or times.",
 [FR+"setup.go",FR+"error.go",FR+"request_n.go",FR+"cancel.go"],[("Encode/Decode/Size",FR+"setup.go"),("Encode/Decode/Size",FR+"error.go")])
p("C04","Decoding arbitrary frame bytes never crashes",
 "Decoding any byte string as any frame type either succeeds or returns an error; it never panics and never yields bytes from outside the given input. A frame whose declared lengths exceed the bytes present is rejected with an error.",
 ["inputs"],"all byte strings of any length as the body of every frame type, under every flag combination",
 "Tests decode one well-formed frame; every malformed length is an untested input.",
 [FR+"payload.go",FR+"request_payload.go",FR+"setup.go",FR+"error.go",FR+"request_n.go"],[("length checks while decoding",FR+"setup.go"),("length checks while decoding",FR+"payload.go")])
p("C05","Fragmentation preserves content and respects the frame limit",
 "Splitting any payload or request frame that exceeds the maximum frame size yields frames none of which exceeds that size, whose metadata and data concatenate to exactly the originals, on the same stream, where all but the last are marked as followed and only the last carries the original completion mark; a frame that fits is not split. The first fragment of a request is a request frame of the same type with the same initial count, and the rest are payload frames.",
 ["inputs"],"all frame sizes from the smallest that can make progress, all metadata/data lengths producing up to a bounded number of fragments",
 "Two tests split one 2 MB frame at one size; boundary alignments between metadata, data and the limit are not reached.",
 [FR+"util.go",FR+"payload.go",FR+"request_payload.go"],[("splitPayloads",FR+"util.go"),("Fragment",FR+"request_payload.go")])
p("C06","24-bit length codec is exact and range checked",
 "Every value from 0 to 2^24-1 survives conversion to its 3-byte big-endian form and back by every reader and writer; any larger value is reported as an error and is never written to the stream.",
 ["inputs"],"all 2^32 values and all 3-byte strings",
 "Tests sample a few values.",["internal/u24/u24.go"],[("codec","internal/u24/u24.go")])
p("C07","Generated stream ids are valid, role-correct and unique within a lap",
 "Each generated stream id is non-zero, fits in 31 bits, is odd for clients and even for servers, and ids generated within one lap of the id space never repeat, even when generators are used concurrently. The first-lap indication is true exactly while no id can have repeated.",
 ["inputs","schedules","histories"],"all generator states up to 2^62 and two concurrent callers",
 "Tests look at the first three ids; wrap-around needs 2^30 calls.",["internal/socket/stream_id.go"],[("Next","internal/socket/stream_id.go")])
# ---- msgpack ----
M="msgpack/"
p("C10","Integers round-trip through MessagePack in minimal form",
 "Every signed and unsigned integer of every width written to MessagePack is encoded in the shortest form of its family, and reads back as the same value with the matching reader or any wider one of the same signedness. Reading into a narrower type succeeds exactly when the value fits, and otherwise returns an error rather than a truncated value; the unsigned readers also accept the signed forms of values that are not negative.",
 ["inputs"],"all 2^64 signed and unsigned values, all reader widths",
 "Tests use about a dozen sample values.",[M+"encoder.go",M+"decoder.go"],[("WriteInt64/WriteUint64",M+"encoder.go"),("ReadInt*/ReadUint*",M+"decoder.go")])
p("C11","The computed MessagePack size equals the bytes the encoder writes",
 "For every value and every writing operation, including generic values, collections and nillables, the size computed in advance equals the number of bytes the encoder produces, so a buffer allocated from the computed size is filled exactly, with no error and no spare byte.",
 ["inputs"],"all scalar values, strings and byte arrays of any length, timestamps, nillables, generic values and small collections",
 "Tests check a few sizes; off-by-one errors sit at length class boundaries such as 255 or 65535.",
 [M+"sizer.go",M+"encoder.go",M+"codec.go"],[("Sizer",M+"sizer.go"),("Encoder",M+"encoder.go")])
p("C12","Strings, bytes, booleans, floats, nil and headers round-trip in MessagePack",
 "Every boolean, 32- and 64-bit float (bit for bit), string and byte array of any length, nillable value (present or absent), and array or map header written to MessagePack reads back equal with the matching reader, which consumes exactly the bytes written. The leading bytes are the MessagePack format's own shortest codes for that value and length.",
 ["inputs"],"all values; all lengths up to 2^32-1 for headers, up to a large bound for string/byte content",
 "Tests sample short strings and a few numbers.",[M+"encoder.go",M+"decoder.go",M+"data_reader.go"],[("Write*/Read*",M+"encoder.go")])
p("C13","Timestamps round-trip through MessagePack",
 "Every representable instant (seconds of either sign, any nanosecond) written as a MessagePack timestamp reads back as the same instant, using the 4-, 8- or 12-byte timestamp form the format prescribes. A timestamp spelled as text in RFC 3339 form is read as the instant it names, and any other text is an error.",
 ["inputs"],"all 64-bit Unix seconds and all nanoseconds 0..999999999",
 "The tests use the current time, which only exercises the 8-byte form.",[M+"encoder.go",M+"decoder.go",M+"sizer.go"],[("encodeTime/decodeTime",M+"encoder.go")])
p("C14","Decoding arbitrary MessagePack bytes never crashes or over-allocates",
 "Every reading operation on every byte string returns a value or an error: it never panics, never returns bytes outside the input, and never allocates memory out of proportion to the input because of a claimed length. Once a read has run past the end of the input the decoder stays in error for every later read.",
 ["inputs"],"all byte strings (symbolic length) for scalar readers, all byte strings up to a stated length for recursive readers",
 "Tests only decode what the encoder wrote.",[M+"decoder.go",M+"data_reader.go",M+"utils.go"],[("bounds check",M+"data_reader.go"),("generic reading",M+"decoder.go")])
p("C15","Skipping a MessagePack value consumes exactly that value",
 "For every well-formed value of every MessagePack family (including nested arrays and maps, and extension types), skipping it advances the decoder to exactly the first byte after the value, and skipping a truncated value reports an error.",
 ["inputs"],"all format codes, all payload lengths, nesting within a stated bound",
 "No test skips anything.",[M+"decoder.go"],[("Skip/getSize",M+"decoder.go")])
p("C16","Generic values round-trip through MessagePack",
 "A generic value (nil, boolean, integer of any width, float, string, byte array, timestamp, lists and maps of those) written through the generic writer is well-formed MessagePack that reads back through the generic reader as an equal value, integers comparing by numeric value; a value of a kind that cannot be represented is reported as an error, never silently dropped.",
 ["inputs"],"all scalar values and all shallow lists/maps within a stated size",
 "Tests cover a few literals.",[M+"encoder.go",M+"decoder.go",M+"codec.go"],[("WriteAny/ReadAny",M+"encoder.go")])
p("C17","Encoding never writes past its buffer and reports running out of space",
 "Writing any value into a buffer of any size never modifies memory outside the buffer and never panics; if the value does not fit, the encoder reports a range error and keeps reporting it for every later write.",
 ["inputs"],"all values x all buffer sizes (symbolic)",
 "Tests always allocate the right size.",[M+"data_reader.go",M+"encoder.go"],[("checkBufferSize",M+"data_reader.go")])
p("C18","List and map helpers round-trip and propagate element errors",
 "Writing a list or map of values with the collection helpers and reading it back yields the same elements (in the same order for lists), and the first element that fails to decode makes the whole read fail with that error. An element that encodes to more bytes than it announced makes the write fail instead of being cut off silently.",
 ["inputs"],"all element values, sizes within a stated bound, any failing position",
 "Tests use one sample list and map.",[M+"utils.go",M+"codec.go","transform/transform.go"],[("ReadSlice/ReadMap",M+"utils.go")])
p("C19","Typed payload transforms and nillable conversions are lossless",
 "For each built-in payload transform, decoding an encoded value yields the same value and never loses the decode or encode error; the nillable conversion helpers map absent to absent, present to the equal value, and pass errors through without crashing.",
 ["inputs"],"all values of each transform's type; absent/present x error/no error",
 "No tests exist for these packages.",["transform/transform.go","msgpack/convert/convert.go"],[("transforms","transform/transform.go"),("nillable converters","msgpack/convert/convert.go")])
# ---- operations / invoke / proxy / buffer ----
p("C20","Operation tables survive serialisation",
 "Serialising any operation table and parsing it back yields the same operations in the same order with the same index, type, direction, namespace and name.",
 ["inputs"],"tables of up to a stated number of operations, all field values, name lengths up to 65535",
 "No test touches the table format.",["operations/operatons.go"],[("ToBytes/FromBytes","operations/operatons.go")])
p("C21","Parsing an arbitrary operation table never crashes or over-allocates",
 "Parsing any byte string as an operation table either succeeds or returns an error; it never panics, never allocates memory out of proportion to the input, and accepts only the magic preamble and version 1. Reserved bytes of any declared length are skipped.",
 ["inputs"],"all byte strings; up to a stated number of entries",
 "No test touches the table format.",["operations/operatons.go"],[("FromBytes","operations/operatons.go")])
p("C22","Registered operations get stable dense indices that find the right handler",
 "Looking up the i-th exported handler of a kind returns exactly the i-th handler exported for that kind and nothing for an unknown index; importing the same operation again returns the same index while different operations get different ones; the published operation table lists every export and import once with that same index and kind.",
 ["histories","inputs"],"all sequences of registrations within a stated length with arbitrary names, all 2^32 lookup indices",
 "No test touches the registry.",["invoke/handlers.go"],[("Export*/Get*Handler/Import*","invoke/handlers.go")])
p("C23","Port messages survive serialisation and malformed ones are rejected",
 "Encoding any port message and decoding it back yields the same port name, data, and the same independent complete and next flags; decoding any byte string returns a message or an error and never panics.",
 ["inputs"],"all port names up to 65535 bytes, all data, all flags; all byte strings",
 "No test touches it.",["invoke/portio.go"],[("Encode/Decode","invoke/portio.go")])
p("C24","Live instance handles resolve exactly to what was stored",
 "A handle resolves to the instance it was issued for until it is removed, and to nothing afterwards (unless the same handle is issued again); handles of different live instances differ, and an unknown handle is reported as absent without touching any memory it denotes. Removing one handle leaves the others intact. All of this also holds when several goroutines use the handles at once.",
 ["histories","inputs","schedules"],"all operation sequences within a stated length; concurrent use by two goroutines",
 "No test touches it.",["invoke/instances.go"],[("Put/Get/Remove","invoke/instances.go")])
p("C25","The stream lookup behaves as a set of streams keyed by id",
 "After any sequence of additions and removals the lookup finds exactly the streams added and not removed, by id, returning the stream that was added, and reports the matching size and emptiness.",
 ["histories","inputs"],"all operation sequences within a stated length over arbitrary ids; concurrent use by two callers",
 "No test touches it; removing the first or last element needs specific histories.",["proxy/lookup.go"],[("Add/Remove/Get","proxy/lookup.go")])
p("C26","The unbounded buffer delivers everything once, in order",
 "Every value accepted by the unbounded buffer before disposal is delivered to a reader that follows the read-then-load protocol, exactly once and in insertion order, under any interleaving of writers and the reader. After disposal new values are refused, already accepted values are still delivered, then the channel closes, and disposing twice is harmless.",
 ["histories","schedules"],"all interleavings of up to a stated number of puts, reads, loads and disposals",
 "Tests run one writer/one reader schedule.",["internal/buffer/unbounded.go"],[("Put/Load/Dispose","internal/buffer/unbounded.go")])
# ---- rx ----
p("C30","A single-result computation delivers exactly one outcome",
 "However its source signals, a subscriber to a mono sees at most one of success or error, the first one signalled, followed by exactly one completion notification with the matching signal, also delivered to every registered listener whether registered before or after completion; later signals are ignored. Constant and constant-error monos obey the same contract.",
 ["histories","inputs"],"all source signal sequences within a stated length, listeners registered at any point",
 "There are no tests of the reactive packages.",["rx/mono/mono.go","rx/mono/processor.go"],[("subscriber/finally","rx/mono/mono.go")])
p("C31","A stream delivers its elements in order and exactly one terminal signal",
 "However its source signals, a subscriber to a flux sees the emitted elements in order up to the first terminal event (completion, error or cancellation) and nothing after it, followed by exactly one final notification carrying the matching signal, which registered listeners receive too. Constant-error fluxes obey the same contract.",
 ["histories","inputs"],"all source signal sequences within a stated length including cancellation at any point",
 "There are no tests of the reactive packages.",["rx/flux/flux.go","rx/flux/processor.go"],[("subscriber","rx/flux/flux.go")])
p("C32","Slice sources honour demand",
 "A stream over a list emits exactly the elements of the list in order, never more than the subscriber has requested, emits all of them once enough has been requested, and completes exactly once, right after the last element (or immediately on the first request for an empty list).",
 ["inputs","histories"],"all list lengths and request sequences within a stated bound, all request sizes",
 "There are no tests of the reactive packages.",["rx/flux/slice.go","rx/flux/response.go"],[("FromSlice","rx/flux/slice.go"),("SliceResponse","rx/flux/response.go")])
p("C33","Mapping applies the function once per element and ends on its first error",
 "Mapping a mono or flux delivers exactly the transformed results in order; if the function fails on an element the subscriber receives that error as the single terminal event with an error notification, and nothing after it. Upstream errors and completion pass through unchanged. Starting a mapped computation without subscribing to it starts its source, once, and a mapped stream can be mapped again.",
 ["inputs","histories"],"all element sequences within a stated length, failure at any position",
 "There are no tests of the reactive packages.",["rx/mono/mono.go","rx/flux/flux.go"],[("Map","rx/flux/flux.go"),("Map","rx/mono/mono.go")])
p("C34","A flow runs each step once, in order, after the previous step's awaits finish",
 "The steps of a flow each run at most once and in order, a step starting only after every await of the previous step has finished, whether those finish synchronously or later and in any order; a step error or an explicit end stops the flow, and the error reaches the subscriber.",
 ["histories","schedules"],"all flows of up to a stated number of steps and awaits, all completion orders, synchronous or deferred",
 "There are no tests of the reactive packages.",["rx/flow/flow.go"],[("next/check","rx/flow/flow.go")])
p("C35","Blocking on a result returns exactly that result",
 "Blocking on a mono or flux returns once it terminates, with exactly its value or its error, for constant, deferred, mapped and processor-backed ones alike, whichever goroutine signals it.",
 ["schedules","inputs"],"all interleavings of one blocked caller and one signalling goroutine",
 "There are no tests of the reactive packages.",["rx/mono/mono_host.go","rx/flux/flux_host.go"],[("Block","rx/mono/mono_host.go"),("Block","rx/flux/flux_host.go")])
p("C36","Conversions between single results and streams keep the outcome",
 "Converting a mono to a flux yields its value then completion, or its error; converting a flux to a mono yields the first element or the error, and converting to a void yields completion or the error, each exactly once.",
 ["inputs","histories"],"all source sequences within a stated length",
 "There are no tests of these conversions.",["transform/transform.go"],[("FluxToMono/MonoToFlux/FluxToVoid","transform/transform.go")])
p("C37","Demand and cancellation reach the source of a stream exactly",
 "Every element a subscriber asks for while a stream runs is asked of its source exactly once, whether before or after the source is ready to be asked; a subscriber without its own request callback asks for everything, and one with a callback is consulted at subscription and again each time the demand it expressed has been delivered. Nothing is asked after the end, cancelling reaches the source exactly once and ends the stream for its listeners, and mappings and processors pass demand and cancellation through.",
 ["inputs","histories","schedules"],"all request sizes, sequences of requests, elements, ends and cancellations within a stated length; two goroutines asking or cancelling at once",
 "There are no tests of the reactive packages.",["rx/flux/flux.go","rx/flux/processor.go"],[("request/requestMore/Cancel","rx/flux/flux.go"),("processor","rx/flux/processor.go")])
# ---- handlers ----
p("C40","Each incoming request is dispatched to its operation and answered exactly once",
 "A request naming a registered operation of the same kind invokes exactly that handler with the request's data, and its result is sent back on the same stream as one terminal response (or, for streams and channels, the elements followed by one terminal frame); an unknown operation is answered with a single not-found error and metadata too short to name one with a single error, without invoking anything; other requests and responses are handled in the meantime, so an operation may call the peer before it answers.",
 ["inputs","histories"],"all request kinds, stream ids, operation ids, metadata/data contents and handler outcomes",
 "No test drives the connection handler.",["handler/handler.go"],[("HandleFrame and handle*","handler/handler.go")])
p("C41","No sequence of incoming frames can crash a connection handler",
 "Whatever frames a peer sends, in whatever order and on whatever stream ids, the connection handler neither panics nor blocks; frames for unknown streams are ignored or reported as errors.",
 ["histories","inputs","schedules"],"all sequences of up to a stated number of frames of every kind over open and unknown streams",
 "No test drives the connection handler.",["handler/handler.go","proxy/mono.go","proxy/flux.go"],[("HandleFrame","handler/handler.go")])
p("C42","Finished streams are forgotten",
 "Once a stream has terminated, in either role and by whichever side (completion, error or cancellation), the handler no longer holds it: later frames for its id are treated as unknown and its id can be used again.",
 ["histories"],"all ways a stream can end, each request kind",
 "No test drives the connection handler.",["handler/handler.go","proxy/lookup.go"],[("removeStream","handler/handler.go")])
p("C43","Calls made through a connection are routed back to their own caller",
 "Each outgoing call sends exactly one request frame of its kind with a fresh role-correct stream id, the caller's payload and the requested amount, and the responses arriving for that stream id, and only those, are delivered to that caller in order up to the terminal one. Further demand and cancellation are sent to the peer as frames for the same stream, channel input is sent on it as the peer asks, and importing an operation yields the index the peer announced for it.",
 ["histories","inputs"],"all response sequences within a stated length over two concurrent calls of each kind",
 "No test makes a call.",["handler/caller.go","proxy/mono.go","proxy/flux.go","handler/handler.go"],[("proxy streams","proxy/flux.go"),("getStream","handler/handler.go")])
p("C44","The guest handles every host buffer and never overruns its own",
 "The guest processes every frame contained in a host-filled buffer, in order, with the same dispatch and single-answer behaviour as any connection, and never panics on a malformed buffer; every frame it emits is written whole and length-prefixed inside the shared buffer, and one that does not fit is refused rather than written past it; its operation table is announced exactly.",
 ["inputs","histories"],"all buffers of up to a stated number of frames, all payload sizes",
 "No test runs the guest natively.",["transport/wasmrs/guest/guest.go"],[("GuestSend","transport/wasmrs/guest/guest.go"),("doSendFrame","transport/wasmrs/guest/guest.go")])
p("C45","The host survives and correctly splits whatever a guest sends",
 "The host splits each guest buffer into exactly the length-prefixed frames it contains, dispatches each to its handler with one terminal answer, and neither panics nor blocks on any malformed buffer or unexpected frame. Frames it sends to the guest are written whole and length-prefixed inside the shared buffer, and one that does not fit is refused rather than written past it.",
 ["inputs","histories","schedules"],"all buffers of up to a stated number of frames and all frame contents",
 "The only host test is a benchmark needing a compiled module.",["transport/wasmrs/host/instance.go"],[("hostSend/recvOne/sendLoop","transport/wasmrs/host/instance.go")])
p("C46","Closing a host instance waits for its active requests and never hangs or crashes",
 "Closing a host instance returns once every request then in progress has been answered, however requests end (success, error, unknown operation, bad metadata, cancellation), never earlier, never panics, and closing twice is harmless; calls to the guest that are open or made afterwards fail instead of waiting forever.",
 ["histories","schedules"],"all interleavings of close with up to two requests ending in every way",
 "No test closes an instance.",["transport/wasmrs/host/instance.go"],[("activeRequests/closing/closed","transport/wasmrs/host/instance.go")])
p("C47","What cannot be sent fails its call instead of vanishing",
 "When the transport refuses a frame (because it is too large, for instance), the call it belongs to fails: a refused request or element of a channel's input fails the call at its caller, a refused response or element of one is answered with a single error frame in its place after the elements before it, the peer is told about a refused input element the same way, the source of the elements is cancelled, nothing of the stream follows and it is forgotten, and other calls are unaffected.",
 ["inputs","histories"],"all kinds of calls in either role, any element refused, sources that send eagerly or as asked for, ending in every way",
 "No test makes the transport refuse a frame.",["handler/handler.go","proxy/flux.go","proxy/mono.go","transport/wasmrs/guest/guest.go","transport/wasmrs/host/instance.go"],[("respond","handler/handler.go"),("channel input","proxy/flux.go"),("SendFrame","transport/wasmrs/host/instance.go"),("doSendFrame","transport/wasmrs/guest/guest.go")])
p("C48","Both directions of a served stream or channel work independently to their end",
 "Whatever order things happen in while a stream or channel requested by the peer is served: each amount the peer asks for reaches the source of the response, also while the operation has not answered yet; each element, the completion or the failure of the response is sent once and in order; each element the peer sends reaches the operation's input in order, also if it is subscribed later or the response has completed before, followed by the peer's completion or failure exactly once; what the operation asks for or that it wants no more input is told the peer; cancelling or failing by the peer cancels the source of the response exactly once, and nothing is sent afterwards.",
 ["inputs","histories"],"all sequences of the stated length of actions of either end, every demand, the input subscribed early or late, operations that answer at once or later",
 "Tests serve no channel; the directions must be independent in every order of their events.",["handler/handler.go","proxy/responder.go","transport/wasmrs/guest/guest.go","transport/wasmrs/host/instance.go"],[("Responder","proxy/responder.go"),("respond/receive","handler/handler.go"),("recvOne","transport/wasmrs/host/instance.go"),("GuestSend","transport/wasmrs/guest/guest.go")])
# ---- rsocket ----
R="transport/rsocket/"
p("C50","The TCP decoder recovers exactly the frames sent, however bytes arrive",
 "For any sequence of valid length-prefixed frames delivered in chunks split at any positions (including data arriving together with end of stream), the decoder returns exactly those frames in order and then end of stream; a zero length or a frame shorter than a header is reported as an error, and no byte sequence crashes it.",
 ["inputs","schedules"],"all chunkings of short streams, all byte contents",
 "No test reads from a connection.",[R+"decoder.go"],[("doSplit/Read",R+"decoder.go")])
p("C51","Frames read from a connection equal the frames written and stay valid",
 "A frame written to a connection and read at the other end has equal type and fields, malformed input is an error and never a crash, and a frame that has been read stays unchanged when further frames are read.",
 ["inputs","histories"],"all frame kinds and field values; two consecutive frames with arbitrary contents",
 "No test reads from a connection.",[R+"tcp_conn.go",R+"decoder.go"],[("Read/Write",R+"tcp_conn.go")])
p("C52","Frames sent concurrently on one connection are never interleaved",
 "When several goroutines send frames on the same connection, the bytes on the wire are some sequence of whole frames, each sent frame appearing exactly once.",
 ["schedules"],"all interleavings of two senders of one or two frames",
 "No test sends concurrently; a race needs a specific schedule.",[R+"transport.go",R+"tcp_conn.go"],[("Send",R+"transport.go")])
p("C53","A connection dispatches every received frame once, in order, and ends cleanly",
 "A started connection passes every received frame to its handler exactly once and in order (a server requires a setup frame first and refuses anything else), and returns when the peer closes, on a handler error, or when its context ends, without leaving its dispatcher running or losing a frame received before the end.",
 ["histories","schedules"],"all frame sequences within a stated length, failure at any position, interleavings of reader and dispatcher",
 "No test starts a transport.",[R+"transport.go"],[("Start/loopReadBuffer",R+"transport.go")])
p("C54","A server serves every peer that sets its connection up and leaves nothing behind",
 "A server hands each connection that starts with a set-up frame, and no other, to its acceptor, with a caller that knows the operations the peer announced and whose requests go to that peer; a refused connection is closed and does not disturb the others, and so does not a failure to accept. When the server is closed, its context ends or its listener is closed, at any moment (also before or while it starts, or while a peer connects), listening ends and every connection is closed, and nothing keeps running; a failure to listen is reported.",
 ["histories","schedules"],"all sequences of peers within a stated length and kinds, every way and moment of ending, interleavings of the goroutines involved",
 "No test starts a server; the leaks and hangs need a refused peer or an end at a particular moment.",[R+"tcp_transport.go",R+"transport.go"],[("Listen/Close",R+"tcp_transport.go")])
p("C55","Calls between an RSocket client and server yield what the operation produced",
 "A server and a client that are told the same network and address by the environment, or none, meet; the server's acceptor then finds every operation that the client exports, and either end can call the operations of the other: exactly the operation that was named is invoked once with the data sent, and the caller of a simple request, stream or channel gets exactly its elements in order and its completion or failure, with both ends calling each other at the same time. When the server ends, so does the client's connection.",
 ["inputs","histories"],"all data within a stated size, all kinds of calls by either end, other operations registered around it, calls of both ends in progress in any order of events",
 "No test connects a client to a server.",[R+"init.go",R+"tcp_transport.go",R+"tcp_conn.go","handler/handler.go"],[("Connect/NewClient/NewServer",R+"init.go"),("Listen",R+"tcp_transport.go"),("Import...","handler/caller.go")])
p("C56","When a connection ends, everything that waits on it ends too",
 "However an RSocket connection ends (the peer hangs up, an error, the end of its context, or by being closed), every call still waiting for the peer fails, exactly once, those that had ended are told nothing more, and calls made at that moment or later fail as well; the input of a channel call is cancelled, so are the sources of responses being sent to the peer, and the input of an operation serving a channel ends; nothing keeps running.",
 ["histories","schedules"],"calls of every kind in every stage, requests being served, all ways of ending, interleavings of a call with the end",
 "No test ends a connection with a call in progress.",[R+"transport.go","handler/handler.go"],[("Start",R+"transport.go"),("Close","handler/handler.go")])
# ---- uuid ----
U="types/uuid/"
p("C60","UUIDs survive their text and binary forms",
 "Every UUID formatted as text, URN, braces, raw hex or binary parses back to the same UUID, with either letter case, and its text has the canonical layout with lowercase digits.",
 ["inputs"],"all 2^128 UUIDs, every form, either case per digit",
 "The package has no tests here.",[U+"uuid.go",U+"marshal.go"],[("Parse/String",U+"uuid.go")])
p("C61","Malformed UUIDs are rejected without crashing",
 "Parsing any text either yields the UUID it spells or an error: a wrong length, a misplaced hyphen, a non-hex digit or a wrong URN prefix is always rejected, parsing from bytes agrees with parsing from a string, and nothing panics.",
 ["inputs"],"all byte strings of every accepted length, and every other length",
 "The package has no tests here.",[U+"uuid.go",U+"util.go"],[("Parse/ParseBytes",U+"uuid.go")])
p("C62","Random UUIDs carry version and variant and never reuse randomness",
 "Every random UUID has version 4 and the RFC 4122 variant, its remaining 122 bits are exactly those of its random source, and pooled generation never hands out the same random bytes twice; a failing source yields an error.",
 ["inputs","histories"],"all random bytes, pooled or not, up to a pool refill",
 "The package has no tests here.",[U+"version4.go"],[("NewRandomFromReader/pool",U+"version4.go")])
p("C63","UUID time and clock sequence fields are consistent",
 "The clock sequence is always 14 bits with the variant set, is changed whenever time does not advance, and setting it is observable; the time fields of a UUID decode to the 60-bit timestamp they encode, and converting a timestamp to Unix time is exact to 100 ns.",
 ["inputs","histories"],"all timestamps, clock readings and sequence values",
 "The package has no tests here.",[U+"time.go"],[("getTime/setClockSequence/Time",U+"time.go")])
# ---- customsections / mesh ----
p("C70","Custom sections are extracted exactly and malformed modules are rejected",
 "Reading a WebAssembly module returns exactly the requested custom sections it contains with their exact contents, ignoring all other sections; any other byte string returns a result or an error, never a crash, and never allocates memory out of proportion to the input.",
 ["inputs"],"modules of up to a stated number of sections with arbitrary contents; all short byte strings",
 "No test reads a module.",["transport/wasmrs/customsections/customsections.go"],[("Read","transport/wasmrs/customsections/customsections.go")])
p("C80","Mesh linking connects every import to its export in any load order",
 "After loading any set of modules in any order, every import for which some module exports the same namespace, operation and kind of request is connected to that export, and imports without one stay pending until it appears.",
 ["histories","configurations"],"all tables and load orders of up to three modules with arbitrary operation names",
 "No test builds a mesh.",["transport/wasmrs/mesh/mesh.go"],[("linkOperations","transport/wasmrs/mesh/mesh.go")])
p("C81","Mesh calls reach the exporting module with its own operation index",
 "A call through the mesh, or through a linked import, is sent to the module that exports the operation, as the same kind of request, with the exporter's operation index in place of the caller's and the rest of metadata and data unchanged; metadata too short for an index never crashes, and an unknown operation is sent nowhere; responses, demand, cancellation and channel input pass through unchanged and the caller's payload is left as it was.",
 ["inputs","histories"],"all metadata and data contents, all four request kinds",
 "No test builds a mesh.",["transport/wasmrs/mesh/mesh.go"],[("destination.Request*","transport/wasmrs/mesh/mesh.go")])
p("C82","Loading a module again switches its calls over and loses none",
 "When a file is loaded again, calls by name and through imports of modules loaded before or after reach the new instance, answers to requests in progress on the old one still arrive, and the old one is closed after a delay; a module that cannot be read, compiled or instantiated is reported and changes nothing; loading during calls is safe; and closing the mesh closes every instance without hanging.",
 ["histories","schedules"],"all short sequences of reloads and failures with a request in progress; one load at any point of a call",
 "No test builds a mesh.",["transport/wasmrs/mesh/mesh.go","transport/wasmrs/host/host.go"],[("LoadModule/Close","transport/wasmrs/mesh/mesh.go"),("Compile/Instantiate","transport/wasmrs/host/host.go")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
