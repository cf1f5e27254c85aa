#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the file stays well formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          observe_at=observe or [], hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    P.append(d)

p("C01", "Inbound messages reach the application exactly as the client sent them",
  "For every conforming client byte stream, the application reads exactly the client's messages: same type, same bytes, same order, each once, and the connection stays open. This does not depend on frame sizes, masking keys, fragmentation, interleaved control frames, TCP segmentation, bytes sent together with the handshake, the configured read-buffer size, or which read call and buffer sizes the application uses. An application that stops reading a message early still gets every later message intact. ReadJSON stores the value of a text message that is one valid JSON value and reports any other text message as a non-fatal error.",
  ["inputs", "configurations"], "all conforming frame streams x segmentations x read-buffer sizes x sequences of read calls",
  "The suite feeds two hand-made 7-byte frames; fragmentation, extended lengths, masking offsets across partial reads, segmentation and early data are never driven.",
  ["conn_read.go", "conn_utils.go", "mask.go", "conn.go", "upgrader.go"],
  [("frame header parsing and control-frame dispatch", "conn_read.go acceptFrame"), ("streaming reader across continuation frames", "conn_read.go ConnReader.Read"),
   ("unmasking with a running offset", "mask.go"), ("reuse of the HTTP read buffer and buffered early data", "conn.go newConn, upgrader.go brNetConn")],
  [("reader frame state", "remaining bytes, mask offset and FIN of the current frame", "conn_read.go ConnReader")],
  ["values returned by ReadMessage/ReadString/ReadBinary/ReadJSON/NextReader+Read"])

p("C02", "Frames that break the protocol are never delivered and close the connection",
  "When a client breaks the framing rules (reserved bits set, undefined opcode, unmasked frame, fragmented or over-long control frame, continuation with nothing to continue, new message started inside an unfinished one), the current read and every later read fail with a fatal error and the peer receives close code 1002. Messages completed before the offending frame are delivered intact. Nothing of the offending frame or of anything after it is ever delivered to the application, nor is the message it interrupts ever reported as complete.",
  ["inputs"], "every kind of violation at every position of every stream, mutated and random byte streams included",
  "No existing test sends a malformed frame.",
  ["conn_read.go", "frame.go", "conn.go"],
  [("header validation", "conn_read.go acceptFrame"), ("expected-continuation checks", "conn_read.go NextReader, ConnReader.Read, conn_utils.go skipRestOfMessage")],
  observe=["application reads", "close frame on the wire"])

p("C03", "Inbound size and fragment limits are enforced exactly",
  "A message whose payload exceeds the configured maximum message size is never delivered as a complete message, the application is never handed more than that many bytes of it, and the connection closes with 1009; a message made of more frames than the configured fragment maximum is never delivered and closes with 1008. Messages at or below both limits are always delivered. A message size limit of -1 and a fragment limit of 0 mean no limit.",
  ["inputs", "configurations"], "all limit values x message sizes around the limit x fragmentations (single frame, sum of fragments, empty fragments)",
  "No test sends a message near any limit or more than one fragment.",
  ["conn_read.go", "options.go"],
  [("per-frame and cumulative size check", "conn_read.go acceptFrame, ConnReader.Read"), ("fragment counter", "conn_read.go NextReader, ConnReader.Read")],
  [("totalSize, fragments", "running totals of the message being read", "conn_read.go ConnReader")],
  ["application reads", "close code on the wire"])

p("C04", "A message cut short by connection loss is never delivered as complete",
  "If the connection ends or fails after any byte of the client's stream, the application has received exactly the messages whose last byte arrived before the cut, and every later read reports a fatal error. A streaming reader never reports a normal end of message for a message whose final frame did not fully arrive, and what it did hand over is a prefix of the message.",
  ["crash_points", "inputs"], "every cut offset of every stream, with end-of-file, reset or timeout as the failure",
  "No test ends a stream in the middle of a message.",
  ["conn_read.go", "conn_utils.go"],
  [("EOF and error mapping", "conn_read.go ConnReader.Read, acceptFrame; conn_utils.go nRead")],
  observe=["application reads"])

p("C05", "Whole-message reads never deliver invalid UTF-8 text unless told to skip",
  "With UTF-8 validation enabled, a whole-message read (ReadMessage, ReadString) delivers a text message if and only if its complete payload is valid UTF-8, however it is fragmented; an invalid one yields a fatal error and closes with 1007. With validation disabled the bytes are delivered unchanged, and binary messages are never subject to it.",
  ["inputs", "configurations"], "all payloads, including code points split over frames, overlong forms, surrogates and truncated sequences",
  "The suite sends one single-frame invalid byte.",
  ["conn_read.go"], [("validation after assembly", "conn_read.go ReadMessage")],
  observe=["application reads", "close code on the wire"])

p("C06", "Every ping is answered by exactly one pong with the same payload",
  "While the application keeps reading, each ping from the client (payload 0 to 125 bytes, any position between or inside messages) is answered with exactly one unmasked pong frame carrying the identical payload, in the order the pings arrived. Pongs and the server's own pings are well-formed single frames whatever data, pings and pongs were sent before or are being sent concurrently; unsolicited pongs are ignored and get no answer.",
  ["inputs", "schedules", "histories"], "all sequences of ping/pong payload sizes interleaved with inbound and concurrent outbound traffic",
  "No test sends a ping; the reused control buffer carries state from one control frame to the next.",
  ["conn_write.go", "conn.go", "conn_read.go"],
  [("control frame writer with its own buffer and locks", "conn_write.go ControlWriter.writeControl, pong, Ping"), ("pong bookkeeping", "conn.go handlePong")],
  [("control buffer", "header and payload of the control frame being sent", "conn.go ControlWriter")],
  ["frames on the wire"])

p("C07", "The closing handshake is correct and nothing follows the close frame",
  "However a connection ends, at most one close frame is sent, it is well formed, it is the last frame on the wire and the transport is closed after it. A valid close from the client is answered with its own status code (1000 when it sent none); a malformed close payload (one byte, forbidden code, invalid UTF-8 reason) is answered with 1002. A close requested by the application carries the requested code and reason when they are legal to send.",
  ["inputs", "schedules"], "all close payloads, all application codes and reasons, closes racing with each other and with sends",
  "The suite checks one application close on an idle connection.",
  ["conn.go", "conn_write.go", "frame.go"],
  [("once-only close", "conn.go CloseWithCode"), ("close payload validation", "conn.go handleClose, frame.go isValidCloseCode"), ("final frame under both write locks", "conn_write.go writeClose")],
  observe=["frames on the wire", "transport close"])

p("C08", "Keepalive keeps live peers and drops dead ones",
  "A connection being read by the application, whose peer answers every ping but is otherwise idle, is never dropped, for any ping interval shorter than the read timeout and any answer delay that fits in the difference; the server pings once per interval and never has two unanswered pings outstanding. A peer that stops answering and sending is dropped, and the pending read fails, within the read timeout; a mismatched answer to an outstanding ping closes with 1002.",
  ["schedules", "configurations", "fault_sequences"], "all ping intervals, read timeouts, answer delays (including an immediate answer) and silence points",
  "No test lets the ping timer fire (30 s or more) or answers a ping.",
  ["conn.go", "conn_write.go", "conn_read.go"],
  [("ping loop", "conn.go pingLoop"), ("outstanding-ping flag", "conn_write.go Ping, conn.go handlePong"), ("read deadline renewal", "conn.go handlePong, conn_read.go NextReader")],
  [("pingSent", "a ping is waiting for its answer", "conn.go Conn")],
  ["frames on the wire over virtual time", "result of the pending read"])

p("C09", "Concurrent senders never corrupt or interleave the outbound stream",
  "Any number of goroutines may send messages, stream with writers, broadcast, batch, ping and answer pings on one connection at the same time: the bytes on the wire always form a valid sequence of unmasked frames in which frames of different messages never mix and control frames are whole. Each send that succeeded appears exactly once, complete and intact; a send that failed appears whole or never completes. One goroutine's messages appear in the order it sent them.",
  ["schedules", "histories"], "all interleavings of concurrent senders, message sizes above and below the write buffer, cancellations and slow transports",
  "The only concurrency test checks that a second NextWriter times out; nothing is sent concurrently and the wire is not inspected.",
  ["conn_write.go", "broadcast.go", "conn_batcher.go", "conn_utils.go"],
  [("writer lock held for a whole message", "conn_write.go NextWriter, Close"), ("frame lock held for one frame", "conn_write.go flush, writeControl; broadcast.go frame.writeToConn"), ("channel-based mutex with done/context/timer", "conn_utils.go mu")],
  observe=["frames on the wire against the log of send calls"])

p("C10", "Outbound messages are encoded exactly, for every size, chunking and buffer",
  "For every payload, message type, write-buffer size, pooling setting and way of sending (whole message, JSON, streamed in any chunks with any explicit flushes), a compliant client decodes exactly one message with that type and exactly those bytes. All frames are unmasked with minimal-length headers, only the first frame carries the message type, and only the last is marked final.",
  ["inputs", "configurations"], "all payload sizes (boundaries 0, 125/126, 65535/65536, buffer size +-header) x buffer sizes x chunkings",
  "Existing write tests check return values only and never decode the wire.",
  ["conn_write.go", "frame.go", "conn.go", "options.go"],
  [("in-place header in front of the payload", "frame.go writeHeaders"), ("buffered writer", "conn_write.go ConnWriter.Write, flush"), ("choice of write buffer", "conn.go newConn, conn_write.go newWriter")],
  observe=["frames on the wire"])

p("C11", "A non-fatal error leaves the connection fully usable",
  "After any call on a connection returns a non-fatal error (cancelled or expired context, unencodable JSON value, invalid message type, message-type mismatch, invalid JSON received, rate limiting, ping already outstanding, use of a finished writer), later sends and reads on that connection work as if the failed call had not happened, and the peer sees a valid stream without a truncated message passed off as complete. A fatal error is returned only if the connection is closed. Closing a finished writer again never affects anyone else's message.",
  ["histories", "schedules", "fault_sequences"], "all sequences of failing and succeeding calls, with cancellation at every point of a send",
  "No test continues to use a connection after an error.",
  ["conn_write.go", "conn_read.go", "errors.go"],
  [("release of the writer on every path", "conn_write.go SendMessage, SendJSON, ConnWriter.Close"), ("discarding the unread rest of a message", "conn_read.go NextReader, conn_utils.go skipRestOfMessage"), ("fatal error type", "errors.go")],
  observe=["results of follow-up calls", "frames on the wire"])

p("C12", "A transport failure at any point closes the connection and hangs nothing",
  "If the transport fails at any point (write error, partial write, write timeout because the peer stopped reading, deadline error, read error), every call in progress on the connection returns within its configured timeouts, no later frame is put on the wire after a partial one, and the connection ends up closed: transport closed, disconnect hook run once, later sends and reads fail. This includes failures hit by broadcasts, batches, pings, pongs and the close frame itself.",
  ["fault_sequences", "crash_points", "schedules"], "failure at every byte of the outbound stream and every transport call, under every kind of outbound traffic",
  "The mock transport of the suite never fails.",
  ["conn_write.go", "broadcast.go", "conn.go"],
  [("failure handling outside the frame lock", "conn_write.go flush, sendFrame; broadcast.go"), ("bounded lock acquisition", "conn_utils.go mu"), ("write deadlines", "conn_write.go")],
  observe=["return of every call in virtual time", "transport close", "hooks"])

p("C13", "Closing is idempotent, terminates, and unblocks everything",
  "Closing a connection from any number of goroutines, at any moment, including from inside its own hooks and while writers, readers, broadcasts or pings are blocked on a stuck peer, always completes within a small multiple of the write timeout; once a close call made outside the hooks returns, the transport is closed. The disconnect hook runs exactly once per established connection. Every call blocked on the connection returns, and every later send or read fails.",
  ["schedules", "histories"], "all interleavings of closes with each other and with every other operation and peer behaviour",
  "The suite closes idle connections from one goroutine.",
  ["conn.go", "conn_write.go", "conn_utils.go"],
  [("once-only close and done channel", "conn.go CloseWithCode"), ("lock acquisition aborts on close", "conn_utils.go mu"), ("close frame writer takes both locks for good", "conn_write.go writeClose")],
  [("done", "closed when the connection is closing", "conn.go Conn")],
  ["call returns, hooks and transport state in virtual time"])

p("C14", "A closed connection releases everything it held",
  "After a connection closes for any reason, and after a handshake that fails, no goroutine started for it survives and no part of the library (upgrader, rate limiter, batching, manager, rooms) keeps the connection reachable, so its memory can be reclaimed. Shutting down batching ends its background goroutine.",
  ["histories", "schedules"], "all ways of opening, using and closing connections, repeated",
  "Leaks are invisible to tests that check return values.",
  ["conn.go", "broadcast.go", "flusher.go", "rate_limiter.go", "manager.go", "rooms_manager.go", "upgrader.go"],
  [("ping and broadcast goroutines end with the connection", "conn.go pingLoop, broadcast.go broadcastListener"), ("deregistration on close", "conn.go CloseWithCode, rate_limiter.go removeClient, flusher.go remove")],
  observe=["goroutine stacks", "weak pointers after garbage collection"])

p("C15", "Data written to one connection never appears on another",
  "Whatever connections sharing an upgrader are opened, used and closed, in whatever order and from whatever goroutines, each peer only ever receives bytes of messages addressed to its own connection. This holds when write buffers are pooled, when connections are closed while being written to, and when sends are attempted on closed connections.",
  ["schedules", "histories", "configurations"], "all interleavings of open/send/close over connections that share pooled buffers",
  "Tests use one connection at a time, with the one buffer size that bypasses the pool.",
  ["conn.go", "conn_write.go", "upgrader.go"],
  [("buffer returned to the pool only when no writer can use it", "conn.go CloseWithCode"), ("exclusive writer", "conn_write.go NextWriter")],
  [("write pool", "buffers shared by all connections of an upgrader", "upgrader.go Upgrader")],
  ["bytes on every wire"])

p("C16", "The handshake accepts exactly the valid upgrade requests, with the right answer",
  "A request is upgraded if and only if it is a GET with a websocket token in Upgrade, an upgrade token in Connection, version 13 and a key of 16 base64-encoded bytes, wherever legal header syntax (case, spaces, lists, repeated header lines) places them. Every accepted request gets exactly one 101 response with the correct accept value, sent before any frame; every refused one gets an HTTP error status, an error for the caller, and no connection.",
  ["inputs", "configurations"], "all header combinations and spellings, with early client data and failing transports",
  "No test performs a handshake.",
  ["upgrader.go"],
  [("header validation", "upgrader.go validate*"), ("response", "upgrader.go Upgrade")],
  observe=["HTTP response bytes", "values returned to the caller"])

p("C17", "Sub-protocols, middlewares and connect hooks gate connections as configured",
  "The selected sub-protocol is the first one in the client's order that the server supports, is announced to the client and exposed on the connection; when none matches the connection is raw, or is refused if raw connections are rejected. Middlewares run in registration order on valid upgrade requests only, and the first error stops the rest, refuses the request with the status and message it specifies (400 otherwise), and yields no connection. The connect hook runs exactly once for each accepted connection, after the 101 response, and never for a refused one.",
  ["inputs", "configurations", "fault_sequences"], "all client and server protocol lists, middleware chains and failure positions",
  "No test performs a handshake or configures a middleware or hook.",
  ["upgrader.go", "options.go"],
  [("selection", "upgrader.go selectSubProtocol"), ("middleware chain", "upgrader.go Upgrade"), ("hook", "upgrader.go Upgrade")],
  observe=["HTTP response", "hook and middleware invocations"])

p("C18", "The manager maps each key to its newest live connection",
  "A lookup by key behaves atomically: it returns the most recently registered connection for that key if that connection has not closed, and nothing otherwise; the listing of all connections agrees, minus exactly the excluded keys. Registering a key again closes the previous connection, and the late cleanup of that previous connection never removes its successor. The register and unregister hooks each run exactly once per connection that was registered and has closed, with that connection.",
  ["schedules", "histories"], "all interleavings of connect, replace, close, lookup and listing over shared keys",
  "No test registers a connection.",
  ["manager.go", "conn.go"],
  [("registry under lock", "manager.go Register, unregister, Get"), ("cleanup bound to the connection that closed", "manager.go, conn.go CloseWithCode")],
  [("conns", "key to live connection", "manager.go Manager")],
  ["lookups, listings and hooks against a history"])

p("C19", "Shutdown closes every connection and always completes",
  "Shutting down a manager or a room manager returns, closes every connection that was registered or in a room when it started (each peer gets a close frame if it is reading, each disconnect and leave/unregister hook runs once), and leaves the registry empty. It completes whatever the hooks do with the manager or rooms, and however many connections, rooms or concurrent closes there are, stuck peers included.",
  ["schedules", "histories", "configurations"], "all populations, hooks that call back into the registry, concurrent closes and stuck peers",
  "No test calls Shutdown.",
  ["manager.go", "rooms_manager.go"],
  [("worker pool closing a snapshot", "manager.go Shutdown, rooms_manager.go Shutdown")],
  observe=["return of Shutdown in virtual time", "wires, hooks and registry afterwards"])

p("C20", "Room membership and join/leave hooks follow joins, leaves and closes exactly",
  "A connection is listed in a room if and only if it has been added and since then neither removed, moved away, nor closed, and the room not emptied or closed; membership in several rooms is tracked independently and a closed connection is in none. For each membership the join hook runs once and, when it ends for whatever reason, the leave hook runs once; adding a member again or removing a non-member runs no hook. When a connection's close ends a membership, the leave hook gets the arguments given at join.",
  ["schedules", "histories"], "all interleavings of add, remove, move, remove-all, room close and connection close over several rooms and connections",
  "No test uses a room.",
  ["rooms_manager.go", "conn.go"],
  [("member set under lock", "rooms_manager.go Room.Add, Remove, RemoveAll, Move"), ("cleanup on close", "rooms_manager.go Room.Add, conn.go CloseWithCode")],
  [("conns", "members of the room", "rooms_manager.go Room")],
  ["listings and hooks against a history"])

p("C21", "A broadcast reaches each targeted member exactly once, in order, and nobody else",
  "A broadcast to a manager or room is delivered exactly once, complete, unfragmented and with the right type, to every open member not excluded whose queue has room, and to nobody else; the returned count is the number of connections it was queued for. A broadcast whose context ends may be left out where it was not sent yet. Broadcasts by one goroutine reach each connection in the order they were made. This holds while members join, leave and close, and while other messages are being sent on the same connections.",
  ["schedules", "histories", "inputs"], "all member sets, exclusions, payload sizes and concurrent traffic",
  "No test broadcasts.",
  ["broadcast.go", "manager.go", "rooms_manager.go"],
  [("per-connection queue and listener", "broadcast.go broadcastListener"), ("snapshot of targets", "manager.go GetAllConnsAsConn, rooms_manager.go GetAllConns")],
  [("broadcastQueue", "messages waiting for one connection", "conn.go Conn")],
  ["frames on every wire", "returned counts"])

p("C22", "Backpressure follows the configured policy and isolates slow connections",
  "When a connection's broadcast queue is full, Drop skips the message for that connection only and keeps it open, Close closes that connection only with 1008, and Wait blocks the broadcast until there is room, the context ends or that connection closes. Messages counted as queued to a connection that stays open are all delivered in order (unless their context ends first); under Drop and Close a stuck connection never delays the broadcaster or other connections.",
  ["schedules", "configurations", "histories"], "all policies, queue sizes, positions of the slow connection and moments at which it recovers or closes",
  "No test broadcasts.",
  ["broadcast.go", "options.go"],
  [("non-blocking enqueue and policy switch", "broadcast.go broadcast, batchBroadcast")],
  observe=["returned counts and return of the broadcast", "frames on every wire"])

p("C23", "Batched messages arrive exactly once, in order, correctly framed, within bounds",
  "Every message accepted for batching on a connection that stays open is delivered exactly once, and messages accepted one after another arrive in that order, across batches. Each batch is one binary message in the configured format (a JSON array, or 4-byte big-endian length prefixes, with the optional prefix and suffix elements once each at its ends), or is handed once to the custom sender; nothing is sent when nothing was accepted. No batch holds more message bytes than the configured maximum unless it is a single message.",
  ["schedules", "histories", "inputs", "configurations"], "all message sequences and sizes, producers, flush moments, strategies and size limits",
  "No test enables batching.",
  ["conn_batcher.go", "flusher.go"],
  [("accumulate and swap under lock", "conn_batcher.go Batch, flush"), ("ordered sending", "conn_batcher.go"), ("encoders", "conn_batcher.go jsonArrayEncoder, lengthPrefixEncoder")],
  [("messages, totalSize", "the batch being filled", "conn_batcher.go messageBatch")],
  ["messages on the wire against the log of accepted messages"])

p("C24", "Batches are flushed on time and shutting batching down loses nothing accepted",
  "A message accepted for batching is on its way to an unblocked connection within one flush interval (50 ms if unset), however many connections there are and even if another connection is stuck. Closing the flusher sends everything accepted before; afterwards, or once its context has ended, batching calls and batch broadcasts (also those already waiting for a full queue) fail with an error, and batching works again for connections opened after it is re-enabled.",
  ["schedules", "histories", "configurations"], "all flush intervals, arrival times, close and cancel moments, concurrent producers",
  "No test enables batching.",
  ["flusher.go", "conn_batcher.go"],
  [("ticker loop", "flusher.go listener, flushAll"), ("closed flag and context", "flusher.go Close, conn_batcher.go Batch")],
  observe=["frames on the wire in virtual time", "errors of batching calls"])

p("C25", "The rate limiter admits exactly what its token bucket allows, per connection",
  "With a limit of r messages per second and burst b, each connection independently delivers a message if and only if its own token bucket has a token when the message starts; control frames cost nothing and a fragmented message costs one token. A rejected message is skipped entirely: the read reports a non-fatal error (or, if the hook returned an error, a fatal one on a closed connection), and the following messages are delivered intact.",
  ["histories", "inputs", "configurations"], "all arrival times, rates, bursts, fragmentations, interleaved control frames and numbers of connections",
  "No test configures a limiter.",
  ["rate_limiter.go", "conn_utils.go", "conn_read.go", "upgrader.go"],
  [("per-connection bucket", "rate_limiter.go"), ("skipping a rejected message", "conn_utils.go allow, skipRestOfMessage")],
  [("clients", "bucket of each open connection", "rate_limiter.go RateLimiter")],
  ["application reads against a reference bucket in virtual time"])

p("C26", "Documented concurrent use is free of data races",
  "One reader and any number of senders, closers, pingers, batchers, broadcasters and registry users may use the same connections, rooms and managers concurrently without any data race, over the whole life of a connection from handshake to close.",
  ["schedules"], "all interleavings of the concurrent operations the documentation allows",
  "The suite is run without the race detector and is almost single-threaded; the project's own tests raced when run with it.",
  ["conn.go", "conn_write.go", "broadcast.go", "manager.go", "rooms_manager.go", "flusher.go", "conn_batcher.go", "rate_limiter.go"],
  [("channel mutexes, mutexes, atomics and once", "whole package")],
  observe=["race detector reports"])

p("C27", "No peer input, configuration or failure crashes the process",
  "No sequence of bytes from a client, no transport failure, no legal configuration (any buffer sizes, unset hooks, nil contexts) and no order of calls by the application makes the library panic or spin forever.",
  ["inputs", "configurations", "fault_sequences", "histories"], "all byte streams, option values, call sequences and faults",
  "The suite uses one configuration and well-formed input.",
  ["conn_read.go", "conn_write.go", "conn.go", "broadcast.go", "rooms_manager.go", "conn_batcher.go", "options.go", "upgrader.go"],
  [("bounds checks and nil checks", "whole package"), ("defaults and minimum sizes", "options.go WithDefault, conn.go newConn")],
  observe=["process termination", "progress of calls"])

p("C28", "A room key always denotes one room until that room is closed",
  "Creating or connecting to a room by key is atomic: all concurrent callers get the same room object, lookups return it and the key listing contains it once, until that room is closed; after that lookups find nothing until the key is used again, which yields a new empty room. Connecting to a room creates it only if the connection is accepted. Closing a room removes its members without closing them, and closing a room object that has already been replaced does not disturb the new room.",
  ["schedules", "histories"], "all interleavings of add, get, connect, key listing and room close over shared keys",
  "No test uses rooms.",
  ["rooms_manager.go"],
  [("room registry under lock", "rooms_manager.go RoomManager.Add, Get, GetRoomKeys, Room.Close")],
  [("rooms", "key to room", "rooms_manager.go RoomManager")],
  ["returned room objects against a history"])

p("C29", "Data handed over stays its owner's",
  "The library never changes memory the application gave it: not the slices passed to any send, stream, broadcast or batching call (nor what lies around them in the same array), not prefixes and suffixes of batches, not lists of exclusions, and a read into a buffer writes nothing outside it. Once a send, stream or broadcast call has returned, the application may overwrite the data it passed without changing what any peer receives; only bytes given to batching as they are must stay unchanged until sent, while values batched as JSON may change at once. Data returned by reads and listings belongs to the application: later traffic never changes it, and overwriting it has no effect on the library.",
  ["inputs", "schedules", "histories"], "all send, broadcast, batch, read and listing calls, with the caller reusing its memory at once",
  "The suite never looks at its own arguments after a call and never reuses a buffer.",
  ["conn_write.go", "broadcast.go", "conn_batcher.go", "conn_read.go", "mask.go", "manager.go", "rooms_manager.go"],
  [("payloads copied into the write buffer", "conn_write.go ConnWriter.Write"), ("broadcast frame built once in its own memory", "broadcast.go Upgrader.broadcast"),
   ("whole-message reads into fresh memory", "conn_read.go ReadMessage"), ("listings built per call", "manager.go GetAllConns, rooms_manager.go Room.GetAllConns")],
  observe=["memory lent to the library", "slices returned by it", "bytes on every wire"])

p("C30", "A call waiting to send ends with its own context, and only then",
  "When a connection is occupied (a message being streamed, a peer that takes nothing), every sending call that waits for it (whole messages, JSON, writers, flushes, Wait broadcasts to a full queue) returns as soon as its own context ends, with that context's error, non-fatal, with nothing of its message sent. It never fails because of another call or another context, and it goes ahead as soon as the connection is free, whatever became of the calls before it; nobody waiting is forgotten. Waiting on one connection never delays another.",
  ["schedules", "histories", "configurations"], "all sets of waiting calls, kinds of contexts and moments at which contexts end and the connection becomes free",
  "The suite never lets two calls compete and has no test with a context that ends.",
  ["conn_write.go", "conn_utils.go", "broadcast.go"],
  [("locks that can be waited for with a context", "conn_utils.go mu.lockCtx"), ("release of the writer on every way out", "conn_write.go ConnWriter.Close, abort, SendJSON"),
   ("blocking enqueue", "broadcast.go Upgrader.broadcast")],
  observe=["return times and errors in virtual time", "bytes on every wire"])

p("C31", "Every option does what its documentation says, defaults included",
  "Each upgrader behaves as its own options say, and as documented where they are left unset: a peer that says nothing (no message, no pong) is dropped ReadWait (60 s) after the read began, the last message or the last pong, and not before; pings leave every PingEvery (50 s); a write waits for the peer WriteWait (5 s) and then ends the connection; messages up to MaxMessageSize (1 MB, -1: any) and up to ReaderMaxFragments frames (0: any) are read and anything larger is refused; a connection that does not get on queues BroadcastChannelsSize (8) broadcasts and then follows BroadcastBackpressure (drop); no batch exceeds MaxBatchSize (1 MB) and a batch waits one flush interval (50 ms for 0); text is validated unless SkipUTF8Validation is set; subprotocols, middlewares and hooks are those of that upgrader. This holds for every combination of options, for upgraders made implicitly by managers, and for any number of upgraders in one process.",
  ["configurations", "inputs", "histories"], "all combinations of set and unset options on several upgraders at once, each probed at its boundaries",
  "The suite's connections are built by hand with one fixed configuration; no default and no boundary is ever observed.",
  ["options.go", "upgrader.go", "conn.go", "conn_read.go", "conn_write.go", "broadcast.go", "flusher.go", "conn_batcher.go", "manager.go", "rooms_manager.go"],
  [("defaults", "options.go Options.WithDefault"), ("use of each option", "conn.go newConn, pingLoop, enableBroadcasting; conn_read.go acceptFrame, NextReader, Read; conn_write.go flush, writeControl; broadcast.go; conn_batcher.go Batch"),
   ("implicit upgraders", "manager.go NewManager, rooms_manager.go NewRoomManager")],
  observe=["drop, ping and write times in virtual time", "close codes", "queue and batch sizes on the wire"])

p("C32", "Serving a live connection for long takes no more memory or goroutines",
  "While a connection stays open, whatever has been completed around it is given up: messages sent, failed, read, broadcast and batched, contexts and writers of finished messages, rooms that were left, emptied or closed (with their managers, hooks, keys and join arguments), other connections that ended or were replaced, requests accepted or refused, listings, keys that were looked up, flushers that were replaced. The number of the library's goroutines and of objects it keeps reachable does not grow with the number of operations performed, only with what is currently connected, queued and registered.",
  ["histories", "schedules"], "all histories of operations around a connection that stays open, of any length",
  "The suite performs each operation once or twice and never looks at what is still reachable.",
  ["conn.go", "conn_write.go", "conn_read.go", "conn_batcher.go", "flusher.go", "broadcast.go", "manager.go", "rooms_manager.go", "rate_limiter.go"],
  [("close callbacks per room and manager entry", "conn.go addOnClose, removeOnClose; rooms_manager.go Room.Add, Remove, RemoveAll"), ("per-message writer handles", "conn_write.go NextWriter"),
   ("taken batches", "conn_batcher.go flushLocked, sendPending"), ("registries", "manager.go, rooms_manager.go, flusher.go add, remove, rate_limiter.go addClient, removeClient")],
  [("onClose", "callbacks of the rooms and managers the connection is in", "conn.go Conn")],
  ["weakly referenced objects after garbage collection", "goroutine stacks"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
