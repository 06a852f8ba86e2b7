"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
D = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, text, why, files, mech, claim=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, claim=claim, na=na))

AI = "static analysis: interprocedural abstract interpretation of the type-checked SSA form"

prop("C01", "Decoders accept or reject every byte sequence without panicking",
 "Every decoder of the library (SPOP frames, message and argument lists, variable-length integers, the peers handshake, peers messages, stick-table definitions, keys, data and entry updates) terminates on every byte sequence, split over reads in any way, with either a value or an error. It never panics, never reads outside its input, and never reports having consumed more bytes than it was given.",
 ["inputs"], "all byte sequences of any length, all read splits, all argument counts and table layouts a remote peer can announce",
 "The tests decode a few captured messages; a panic needs one particular truncation or length out of infinitely many.",
 ["pkg/encoding/varint.go", "pkg/encoding/kvscanner.go", "pkg/encoding/messagescanner.go", "spop/frame.go", "peers/protocol.go", "peers/messages.go", "peers/sticktable/sticktables.go", "peers/sticktable/values.go"],
 [("bounds checks before slicing", "pkg/encoding/kvscanner.go:take"), ("bounds checks before slicing", "pkg/encoding/messagescanner.go:Next"), ("length checks", "peers/sticktable/sticktables.go:Unmarshal"), ("length checks", "peers/sticktable/values.go:Unmarshal"), ("header length check", "spop/frame.go:decodeHeader")],
 claim=(AI, "Proves absence of panics, out-of-range accesses and over-consumption for all inputs of the analysed entry points, by abstract interpretation over linear inequalities with loop fixpoints; loops are shown to make progress. Trusted: the models of the Go standard library, go/ssa, and that caller-supplied readers obey io.Reader."))

prop("C02", "A panic in user code or frame processing never takes the process down",
 "A panic raised by a handler, or while a frame or peers message is processed, is contained: it does not leave any goroutine that the library started, the workers shared by all connections stay alive, and only the connection (or the message) at fault is given up. A contained panic leaves no lock held and is reported as an error rather than being taken for success.",
 ["inputs", "fault_sequences", "schedules"], "all handler callbacks and all points at which they or the library can panic",
 "The tests use handlers that do not panic; an escaped panic kills the test process only when a test happens to provoke it at that place.",
 ["spop/agent.go", "spop/scheduler.go", "spop/protocol.go", "peers/peers.go", "peers/protocol.go"],
 [("recover wrapper", "spop/agent.go:wrapPanic"), ("worker loop", "spop/scheduler.go:queueWorker"), ("recover wrapper", "peers/peers.go:wrapPanic"), ("close from own goroutines", "peers/protocol.go:closeRecovered")],
 claim=(AI, 'Analyses every callback and connection operation with a possible panic at each of them and reports any goroutine or entry point of the library that a panic can leave, and any effect on other connections. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C03", "Memory taken for remote input is bounded by the protocol limits",
 "No frame or message announced by a remote side makes the library allocate more than the limit in force: before negotiation a frame is limited to the initial maximum, afterwards to the frame size the remote side announced, and a peers message and its handshake lines to fixed maxima. An announced frame size is accepted only inside the protocol's range, judged on its full value, and a longer frame or message is rejected before its body is read; answers never exceed the negotiated size.",
 ["inputs"], "all 32-bit frame lengths, all 64-bit announced frame sizes and message lengths, all decoded lengths and counts",
 "The relevant values are 32- and 64-bit quantities; tests use a handful of small ones.",
 ["spop/frame.go", "spop/protocol.go", "spop/frames.go", "peers/protocol.go", "peers/messages.go", "peers/sticktable/sticktables.go"],
 [("frame limit", "spop/frame.go:readFrom"), ("range check", "spop/protocol.go:onHAProxyHello"), ("answer limit", "spop/frames.go:writeTo"), ("message limit", "peers/protocol.go:ReadFrom")],
 claim=(AI, 'Bounds every allocation made for remote input by linear inequalities, for every announced length. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C04", "An SPOP session starts with exactly one valid hello exchange",
 "Nothing but a HAPROXY-HELLO is accepted as the first frame of a connection; it must announce a valid maximum frame size, and is answered by exactly one AGENT-HELLO that carries protocol version 2.0, the same maximum frame size and the capabilities. No other frame is processed, and nothing else is sent, before that exchange succeeded; a healthcheck hello is answered and the session then ends without further frames.",
 ["inputs", "histories"], "all first frames, all hello contents and orders of entries, all write failures",
 "Tests send one well-formed hello; wrong first frames, duplicates, missing or repeated entries and failing writes are not exercised.",
 ["spop/protocol.go", "spop/frames.go"],
 [("first frame check", "spop/protocol.go:Serve"), ("hello parsing", "spop/protocol.go:onHAProxyHello"), ("answer", "spop/frames.go:AgentHelloFrame.WriteTo")],
 claim=(AI, 'Analyses client.Serve and everything it calls against scripted connections whose frame contents are symbolic (any first frame type, any hello contents, any failing write) and asserts on the bytes written. Orders of hello entries are covered by a fixpoint over the list loop. Trusted: the models of the Go standard library and the construction of SSA form.'))

prop("C05", "Each NOTIFY is answered by exactly one matching ACK with the handler's actions",
 "For every well-formed NOTIFY frame the handler runs once per message, in order, with that message's name and arguments, and exactly one complete ACK is sent that carries the same stream and frame identifiers and exactly the actions written by the handler. If a message is malformed, a handler panics, or the answer would be too long, no part of an ACK is sent and the failure is reported.",
 ["inputs", "histories"], "all NOTIFY contents and numbers of messages, all handler behaviours, all identifiers",
 "Tests answer a single message with small identifiers; correspondence must hold for every list, identifier and failure.",
 ["spop/protocol.go", "spop/frames.go", "spop/frame.go"],
 [("dispatch", "spop/protocol.go:onNotify"), ("answer", "spop/frames.go:AckFrame.writeTo"), ("frame output", "spop/frame.go:writeTo")],
 claim=(AI, 'Analyses whole sessions with symbolic NOTIFY contents and handler behaviour (actions of any size, panics, partly read messages) and asserts on the ACK bytes; message lists are covered by fixpoints, exact answers are compared for lists of up to two messages. Trusted: the models of the Go standard library and the construction of SSA form.'))

prop("C06", "Typed values and actions are encoded as the SPOE protocol defines",
 "Every typed setter of the list writer and of the action writer produces exactly the byte layout of the SPOE specification (action type, argument count, scope, name, type tag and value), and the decoder returns the name, type and value that were written, for every name and value. Flags, type tags and lengths of different types are never confused.",
 ["inputs"], "all names, values, scopes and value types; all buffer sizes that suffice",
 "Tests encode a few samples; an error in one tag, scope or length class only shows for that type and size.",
 ["pkg/encoding/kvwriter.go", "pkg/encoding/kvscanner.go", "pkg/encoding/actionwriter.go", "pkg/encoding/encoding.go"],
 [("list encoder", "pkg/encoding/kvwriter.go"), ("list decoder", "pkg/encoding/kvscanner.go:Next"), ("action encoder", "pkg/encoding/actionwriter.go")],
 claim=(AI, 'Compares, for every name and value, the symbolic output of each setter with the layout the SPOE specification prescribes, and decodes it back with the scanner. Trusted: the models of the Go standard library and the construction of SSA form.'))

prop("C07", "SPOP frames are encoded and decoded with the same layout",
 "Every frame written has a four-byte big-endian length equal to the number of bytes that follow, then type, flags (with the final-fragment flag set), stream and frame identifiers and the payload; reading back a written frame yields the same type, flags, identifiers and payload. Agent disconnects carry the status code and its matching text, hello answers the announced parameters.",
 ["inputs"], "all frame types, identifiers and payloads; all status codes",
 "Tests use fixed small frames; the layout must agree for every identifier width and payload length.",
 ["spop/frame.go", "spop/frames.go", "spop/error.go", "pkg/buffer/slicebuf.go"],
 [("header encoder", "spop/frame.go:encodeHeader"), ("header decoder", "spop/frame.go:decodeHeader"), ("length prefix", "spop/frame.go:writeTo"), ("offset bookkeeping", "pkg/buffer/slicebuf.go")],
 claim=(AI, 'Compares the symbolic bytes written with the frame layout and decodes them back, for every identifier, flag, payload and status code. Trusted: the models of the Go standard library and the construction of SSA form.'))

prop("C08", "A failed write leaves no partial output behind",
 "When an encoder runs out of space or is given an invalid value it returns an error and never panics, and a list or action writer then still contains exactly the entries completed before, so that later entries are not corrupted. Sending a stick-table entry or definition that cannot be encoded puts no byte of it on the connection.",
 ["inputs", "fault_sequences"], "all buffer sizes, values and positions at which the space runs out",
 "Each setter has a failure point per output byte; tests only use sufficiently large buffers.",
 ["pkg/encoding/kvwriter.go", "pkg/encoding/actionwriter.go", "pkg/encoding/encoding.go", "peers/writer.go", "peers/sticktable/sticktables.go", "peers/sticktable/values.go"],
 [("offset restored on failure", "pkg/encoding/kvwriter.go"), ("growing", "pkg/encoding/actionwriter.go:grow"), ("marshal before write", "peers/writer.go:SendEntry")],
 claim=(AI, 'Analyses every setter with buffers of every size, so that each write can run out of space, and compares what the writer holds afterwards. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C09", "Message and argument boundaries are kept, and errors are sticky",
 "A message yields exactly the declared number of arguments, whatever the handler read of them, and the next message starts right behind its last argument. A truncated or malformed argument is reported as an error by the message list, never as a clean end, and after an error no further entry or message is delivered.",
 ["inputs", "histories"], "all lists, all numbers of arguments a handler leaves unread, all truncation points",
 "Tests scan complete well-formed lists; boundary errors need a truncation or a partly read message.",
 ["pkg/encoding/messagescanner.go", "pkg/encoding/kvscanner.go", "spop/protocol.go"],
 [("argument count", "pkg/encoding/kvscanner.go:Next"), ("skipping unread arguments", "pkg/encoding/messagescanner.go:Next"), ("discarding", "pkg/encoding/kvscanner.go:Discard")],
 claim=(AI, 'Analyses the message and argument scanners over every list (any bytes, any declared counts, any amount of a message left unread): each message starts where the previous one ends, counts are exact, a truncated list ends in an error, and nothing is delivered after an error. Loops are summarised by inferred invariants. Trusted: the models of the Go standard library and the construction of SSA form.'))

prop("C10", "Pooled objects have one owner and are handed out clean",
 "An object taken from one of the internal pools is returned at most once, is not used by the library after it was returned, and is returned on every path including errors. What it contained for one connection or message (data, errors, counters, identifiers) is never visible to the next user.",
 ["histories", "schedules"], "all paths through acquire and release, all contents left behind by earlier users",
 "Reuse from a pool is rare and nondeterministic in tests, and leaks or double returns have no immediate effect.",
 ["spop/frame.go", "spop/protocol.go", "spop/frames.go", "pkg/encoding/kvscanner.go", "pkg/encoding/messagescanner.go", "pkg/encoding/actionwriter.go", "pkg/encoding/kvwriter.go"],
 [("frame pool", "spop/frame.go:acquireFrame/releaseFrame"), ("scanner pools", "pkg/encoding/*.go:Acquire*/Release*")],
 claim=(AI, 'Tracks ownership of pooled objects through every path of the analysed entry points (double return, use after return, return of nil), and analyses each use with everything that earlier users can leave behind. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C11", "Values kept beyond a call do not alias reused buffers",
 "Whatever the library retains or hands out to be kept (engine identifiers, unmarshalled struct fields, definitions, keys and values of entry updates, encoded actions) does not share memory with buffers that are reused for later frames, messages or entries, and does not share memory with the caller's arguments when the caller may reuse those. Two entry updates delivered to a handler never share storage.",
 ["histories", "inputs"], "all retained values and all later reuse of the input buffers",
 "Aliasing is invisible until the buffer is reused with different content at the wrong time.",
 ["spop/protocol.go", "pkg/encoding/kvunmarshal.go", "pkg/encoding/actionwriter.go", "peers/protocol.go", "peers/sticktable/sticktables.go", "peers/sticktable/values.go"],
 [("copying", "pkg/encoding/kvunmarshal.go:setValue"), ("engine id copy", "spop/protocol.go:onHAProxyHello"), ("fresh message buffer", "peers/protocol.go:ReadFrom")],
 claim=(AI, 'Decides whether the memory of what is kept can be shared with reused buffers by the points-to part of the abstract interpretation. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C12", "Frames and messages of one connection are written whole and never interleaved",
 "Every frame or peers message is written to its connection completely, as one contiguous run of bytes under mutual exclusion, however many goroutines answer, push updates or send heartbeats on that connection at the same time, and is flushed before the call reports success. A short or failed write is reported and nothing of the same frame follows it.",
 ["schedules", "fault_sequences"], "all interleavings of writers on a connection and all write failures",
 "Interleaving needs two writers preempted between two writes of a frame; tests rarely or never hit it.",
 ["spop/frame.go", "spop/protocol.go", "peers/writer.go", "peers/protocol.go"],
 [("frame lock", "spop/frame.go:writeTo"), ("shared mutex", "peers/writer.go"), ("locked write", "peers/protocol.go:lockedWrite")],
 claim=(AI, 'Analyses the output of a connection with every write a possible failure; each frame or message must be written within one critical section of one lock, which decides interleaving for every schedule. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C13", "Locks are released on every path and never held across callbacks",
 "Every lock the library takes is released on every path, including errors and panics, is never taken twice by the same goroutine, and is never held while user code runs, while another lock is awaited in the opposite order, or while waiting on a channel. Waiting on the work queue happens only with the queue's lock held and re-checks its condition.",
 ["schedules", "fault_sequences"], "all paths through functions that take locks, including panicking ones",
 "A leaked lock shows as a hang after one specific failure; the tests do not inject those failures.",
 ["spop/scheduler.go", "spop/frame.go", "peers/writer.go", "peers/protocol.go"],
 [("deferred unlock", "spop/scheduler.go:Put/Get"), ("deferred unlock", "peers/writer.go"), ("deferred unlock", "peers/protocol.go:lockedWrite")],
 claim=(AI, 'Computes the locks held at every point of every analysed path, with a panic possible in every callback and a failure possible at every connection operation: locks left held, taken twice, held while handlers run or while waiting, and cyclic lock orders are reported with their site. Trusted: the models of the Go standard library (sync in particular) and the construction of SSA.'))

prop("C14", "The work queue delivers every frame once, in order, to its own connection",
 "Frames handed to the shared workers are taken out exactly once, in the order they were put in, each together with the connection it came from. The queue never holds more than its capacity, never overwrites or returns an empty slot, and every put or take wakes a waiter of the other side.",
 ["schedules", "histories"], "all sequences of puts and takes, all queue states including wrap-around, full and empty",
 "Tests queue few frames; wrap-around at full capacity with waiting producers is not reached.",
 ["spop/scheduler.go"],
 [("ring buffer", "spop/scheduler.go:Put/Get"), ("condition variables", "spop/scheduler.go:newQueue")],
 claim=(AI, 'Analyses Put and Get from every queue state (any capacity, any fill level, any position, full and empty, states changed by others while waiting) against the ring-buffer specification, including which condition is signalled, and short sequences exactly. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C15", "State shared between goroutines is accessed without data races",
 "State that more than one goroutine reaches (the work queue, the writer's buffer and counter, the connection's output, the negotiated session parameters, the timers of a peers session) is only accessed under the lock that protects it, or is written only before the other goroutines can see it. State owned by the reading goroutine of a connection is touched by no other goroutine.",
 ["schedules"], "all interleavings of the goroutines started by the library and of callers of the exported concurrent API",
 "The race detector only sees the schedules and paths that a test executes.",
 ["spop/scheduler.go", "spop/protocol.go", "peers/writer.go", "peers/protocol.go", "peers/peers.go"],
 [("queue lock", "spop/scheduler.go"), ("session parameters set before workers start", "spop/protocol.go:onHAProxyHello"), ("writer lock", "peers/writer.go"), ("timers created before goroutines", "peers/protocol.go:Serve")],
 claim=(AI, 'Computes the locks held at each access to objects that several goroutines reach, and the order given by starting goroutines and handing over; reports conflicting accesses without a common lock. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C16", "Errors are reported, never dropped or turned into success",
 "An error from reading or writing the connection, from an encoder or decoder, or from closing a handler reaches the caller or ends the session; a result is never used when it came with an error, and an operation that did not happen is never reported as done. Only the documented best-effort messages (the final disconnect, the reply to a resync request) and the regular end of a connection are exempt.",
 ["fault_sequences", "inputs"], "all failing operations at all call sites",
 "Tests do not inject failures into connections and decoders at every call site.",
 ["spop/protocol.go", "spop/frames.go", "spop/frame.go", "peers/protocol.go", "peers/writer.go", "peers/messages.go", "peers/sticktable/sticktables.go", "peers/sticktable/values.go", "pkg/encoding/kvscanner.go", "pkg/encoding/kvwriter.go", "pkg/encoding/actionwriter.go"],
 [("error returns", "spop/protocol.go"), ("error returns", "peers/writer.go")],
 claim=(AI, 'Injects a failure at every operation of a connection (reads, writes, flushes, the end of the stream at every byte of a message, handlers, listeners, encoders) on every analysed path, and asserts that it is returned or logged, that nothing is handed over or answered, and that nothing is reported as failed that was done. Trusted: the models of the Go standard library and the construction of SSA form.'))

prop("C17", "Stick-table definitions and entries survive an encode-decode round trip",
 "For every stick-table definition (with its data types in table order) and every entry update, encoding and then decoding yields the same identifiers, names, key, data values, periods and expiry, and consumes exactly the bytes produced. Every key and data type decodes what it encodes, with the key size the definition announces.",
 ["inputs"], "all definitions, keys and data values of all types; all combinations of data types",
 "Tests round-trip a few captured tables; the combination space of types and values is unbounded.",
 ["peers/sticktable/sticktables.go", "peers/sticktable/values.go", "peers/writer.go"],
 [("definition codec", "peers/sticktable/sticktables.go:Definition"), ("entry codec", "peers/sticktable/sticktables.go:EntryUpdate"), ("value codecs", "peers/sticktable/values.go")],
 claim=(AI, 'Decodes the symbolic output of each encoder for every table layout, key and value and compares. Table layouts are enumerated by type and pairs, values are symbolic. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C18", "Every stick-table type has the representation HAProxy uses for it",
 "Each known data type and key type has HAProxy's number and name and is decoded with the value representation HAProxy uses (signed, unsigned, 64-bit, frequency counter, dictionary), exactly the rate types carry a counter and period in a definition, and unknown types are rejected and never guessed. Message classes and message types have the numbers of the peers protocol.",
 ["inputs"], "all type numbers, known and unknown",
 "Tests touch a few of the types; each entry of the tables can be wrong independently.",
 ["peers/sticktable/constants.go", "peers/constants.go"],
 [("type registry", "peers/sticktable/constants.go:New/IsDelay/String"), ("message numbers", "peers/constants.go")],
 claim=(AI, 'Evaluates the tables for every known number and an arbitrary unknown one against the published HAProxy constants. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C19", "Peers messages are dispatched to the right table with the right fields",
 "An entry update is delivered to the handler exactly once, decoded against the definition most recently selected (by definition or switch), with an update identifier and an expiry exactly when its message type carries them, and otherwise with the identifier following the previous one. Updates without a table, switches to unknown tables and unknown classes, types or error messages end the session with an error; acknowledgements, heartbeats and synchronisation messages are accepted without effect on tables, and a resync request is answered.",
 ["inputs", "histories"], "all message sequences and contents",
 "Tests replay short captured sessions with one table.",
 ["peers/protocol.go"],
 [("dispatch", "peers/protocol.go:messageHandler"), ("table selection", "peers/protocol.go:StickTableUpdateMessageType.OnMessage")],
 claim=(AI, 'Analyses sessions with symbolic messages and a recording handler and asserts on what it is given. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C20", "Pushed entry updates carry consecutive identifiers and the right message type",
 "Entry updates sent over one connection carry update identifiers that start at zero and increase by one in the order in which they appear on the wire, even with concurrent senders. The message class, message type (timed exactly when the entry has an expiry), length and layout are those the receiving side expects, and every message is preceded by its exact payload length.",
 ["schedules", "inputs"], "all entries, batch sizes and interleavings of senders",
 "Tests send a few entries sequentially.",
 ["peers/writer.go"],
 [("identifier under lock", "peers/writer.go:SendEntry/SendEntries"), ("layout", "peers/writer.go:marshalEntry"), ("framing", "peers/writer.go:writeMessageLocked")],
 claim=(AI, 'Analyses the writer with symbolic entries and any interference by other senders whenever its lock is taken, and asserts on the bytes written. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C21", "A peers session starts with a handshake, ends once, and leaves nothing running",
 "A session begins by reading exactly the three handshake lines, hands them to the handler and answers with status 200 before anything else is sent; no byte following the handshake is lost. When the session ends, for whatever reason, the handler is closed exactly once, the connection is closed and its timers and goroutines stop; a peer silent for too long or not writable any more is disconnected, and every message received counts as a sign of life.",
 ["inputs", "histories", "fault_sequences"], "all handshakes and read splits, all ways in which a session ends",
 "Tests end sessions regularly; concurrent ends, failing handlers and dead peers are not exercised.",
 ["peers/protocol.go", "peers/messages.go", "peers/peers.go"],
 [("handshake", "peers/protocol.go:peerHandshake"), ("close once", "peers/protocol.go:Close"), ("watchdogs", "peers/protocol.go:heartbeat/lastMessage")],
 claim=(AI, 'Analyses whole peers sessions with symbolic handshakes, messages, timer expiries and failures and asserts on the bytes written and the state at the end. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C22", "One failing connection never affects the listener or other connections",
 "Every accepted connection is served in its own goroutine and is closed when its session ends, also on errors and panics; neither a failing connection option nor a failing session ends the accept loop, which only ends when accepting fails. Cancelling the base context closes the listener, and each connection has its own session state; the context a handler is given ends with its own session or the base context and not with another session.",
 ["fault_sequences", "histories"], "all outcomes of accepted connections",
 "Tests use one or two healthy connections.",
 ["spop/agent.go", "peers/peers.go"],
 [("accept loop", "spop/agent.go:Serve"), ("accept loop", "peers/peers.go:Serve")],
 claim=(AI, 'Analyses the agent and the peers server with several connections of which one fails in every way and asserts that the others are served and closed. Trusted: the models of the Go standard library and the construction of SSA.'))

prop("C23", "Unmarshalling arguments into a struct is strict about types and complete",
 "Arguments are stored into exactly the fields tagged with their name, only when the argument type matches the field type; a mismatch, a malformed list or an unsupported target is an error and never a panic or a silently converted value. A stored value is a copy equal to the value of the argument, within the width of its type. Optional fields without an argument are reset, unknown arguments are skipped, and other fields are not touched.",
 ["inputs"], "all argument lists and all supported field types",
 "Tests cover a few structs with well-formed input.",
 ["pkg/encoding/kvunmarshal.go"],
 [("field lookup", "pkg/encoding/kvunmarshal.go:Unmarshal"), ("type checks", "pkg/encoding/kvunmarshal.go:setValue")],
 claim=(AI, 'Analyses Unmarshal for every argument type against every supported and a set of unsupported field types, with symbolic names and values: what is stored, in which field, that it is a copy, that mismatches and malformed lists are errors, that nothing panics; orders, repetitions and counts are enumerated up to three fields, arbitrary lists are analysed for one field. Trusted: the models of the Go standard library and the construction of SSA form.'))

prop("C24", "Variable-length integers: encoder, decoders and length computation agree",
 "Every 64-bit value is encoded into the number of bytes that the length computation predicts, at most ten, as the protocol defines; both decoders (from a slice and from a stream) return that value and consume exactly those bytes. With too little room or truncated input they return an error instead.",
 ["inputs"], "all 64-bit values and all buffer lengths",
 "Tests sample a few values of a 64-bit space.",
 ["pkg/encoding/varint.go", "pkg/encoding/actionwriter.go"],
 [("encoder", "pkg/encoding/varint.go:PutVarint"), ("decoders", "pkg/encoding/varint.go:Varint/ReadVarint"), ("length", "pkg/encoding/actionwriter.go:varintLen")],
 claim=(AI, 'Proves the encoder, both decoders and the length functions by analysing their bodies over all 64-bit values (at most ten iterations, unrolled completely) and all buffer lengths. Trusted: the models of the Go standard library and the construction of SSA form.'))

prop("C25", "Heartbeats and dead-peer detection happen in time",
 "A peers session sends a heartbeat after every three seconds without other output and is closed after five seconds without any message from the remote side.",
 ["schedules", "histories"], "all message timings",
 "Timing under load cannot be enumerated by tests.",
 ["peers/protocol.go"],
 [("timers", "peers/protocol.go:resetHeartbeat/resetLastMessage")],
 na="Elapsed real time depends on the scheduler and the clock; the source does not determine when a timer fires relative to other work. The structural part (timer creation, reset on every message, closing when it fires) is decided under C21.")

prop("C26", "Every queued frame is eventually processed and no connection starves",
 "As long as handlers return, every frame read from a connection is eventually handed to a worker, independent of the load other connections cause.",
 ["schedules"], "all fair schedules",
 "Liveness cannot be observed in a finite test.",
 ["spop/scheduler.go"],
 [("queue", "spop/scheduler.go")],
 na="Liveness under all fair schedules, with handlers of unbounded duration, is not visible in the shape of the code. The safety part (order, capacity, wake-ups on every path) is decided under C14.")

prop("C27", "Scanning and answering do not allocate on the hot path",
 "Scanning messages and arguments and writing actions into a sufficiently large buffer allocate no heap memory once the pools are warm.",
 ["inputs"], "all inputs",
 "Allocation counts are measured for a few inputs.",
 ["pkg/encoding/kvscanner.go", "pkg/encoding/actionwriter.go"],
 [("pools", "pkg/encoding/*.go")],
 na="Whether a value is heap allocated is decided by the compiler's escape analysis and inlining, not by the program's semantics, and behaviour-preserving edits change it.")

def main():
    with open(os.path.join(D, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]]))) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif p["claim"]:
            t, note = p["claim"]
            checks.append(dict(property=p["id"], quick_cmd="bash run.sh %s quick" % p["id"], thorough_cmd="bash run.sh %s thorough" % p["id"],
                technique=t, level="other", level_note=note))
        else:
            na.append(dict(property=p["id"], reason="No check yet."))
    m = dict(version=1, setup_cmd="bash build.sh", checks=checks, not_applicable=na,
        notes="All checks are static: checker/ analyses /repo's current source (type-checked, in SSA form) and never runs it. /repo carries no hooks; its only commits are repairs ('fix:').")
    with open(os.path.join(D, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")

main()
