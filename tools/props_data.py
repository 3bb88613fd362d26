NA = {}
H = ["schedules"]
prop("F01", "Every frame survives the wire unchanged, under any fragmentation",
 "Whatever id, flag bits, 24-bit command and payload a caller writes is laid out on the connection exactly as the documented frame format says, and whatever well-formed frame a peer sends is delivered with exactly the same id, flags, command and payload, however the bytes are split into reads and writes. A request sent with Request never carries the stream bits.",
 ["inputs", "schedules"], "all ids, commands, free flag bits and payload lengths, both roles, all fragmentations of the byte stream",
 "the tests send a handful of short constant payloads over loopback, one write per frame; both ends are this library, so a symmetric change of the format goes unnoticed",
 ["framewriter.go", "framereader.go", "reader.go", "writer.go", "qrpc.go"],
 [("frame header encoding", "framewriter.go StartWrite/endWrite"), ("frame decoding", "framereader.go readFrame"), ("full reads across fragments", "reader.go ReadBytesWithMaxTimeout")])
prop("F02", "Concurrent writers: each frame whole, exactly once, in per-writer order",
 "When any number of goroutines write frames on one connection (requests, responses, pushes, stream frames, on either side) every frame whose write reported success arrives at the peer whole, exactly once, never interleaved with another frame, and frames of one writer arrive in the order they were written. This holds for slow peers and for partial writes at any byte; a frame whose write reports failure arrives at most once, and only on a connection that is then ended.",
 ["schedules", "inputs", "configurations", "fault_sequences"], "all schedules of concurrent writers, queue sizes, batch sizes, write sizes accepted by the connection and stalls",
 "tests use one or few writers on loopback where every write is accepted at once; batching and partial-write resumption are never hit",
 ["serveconn.go", "clientconn.go", "writer.go", "framewriter.go"],
 [("write lock and batch collection", "serveconn.go writeFrameBytes/collectWriteFrames"), ("writer loop", "clientconn.go writeFrames"), ("partial write resumption", "writer.go writeBuffers")])
prop("F03", "A frame carries only the bytes written for it",
 "The payload of a frame consists of exactly the bytes passed to the writer since the frame was started: nothing from a frame that was started but abandoned, failed, was reset or whose handler panicked ever appears in a later frame, on the same connection or on another one.",
 ["histories", "inputs", "schedules"], "all sequences of started, finished, abandoned, failing and panicking writes over reused writers and connections",
 "tests always finish every frame they start and check a single response",
 ["framewriter.go", "serveconn.go", "clientconn.go"],
 [("writer pool and buffer reset", "framewriter.go newFrameWriter/StartWrite/Finalize"), ("shared writer of blocking handlers", "serveconn.go serve")])
prop("F04", "Command and flag helpers agree with the documented bit layout",
 "Splitting a command into routing part and opaque byte and combining them back is lossless and touches only the documented bits; each flag predicate and conversion depends on and changes only its own bits: converting to streamed, end-of-stream, codec and back to non-streamed or non-codec sets or clears exactly those bits, and done/non-blocking/stream/reset/push predicates match their documented definitions for every flag value.",
 ["inputs"], "all 256 flag values, all routing values, all opaque bytes, and 32-bit command values",
 "no test calls most helpers; the value space is finite and can be enumerated",
 ["qrpc.go"], [("flag algebra", "qrpc.go FrameFlag methods"), ("command layout", "qrpc.go Cmd methods")])
prop("F05", "The byte reader, writer and websocket connection are exact",
 "The exported Reader and Writer and the websocket net.Conn are exact byte streams over every transport: each read gives exactly the next bytes the peer wrote, whatever the sizes, fragments, websocket message boundaries, empty messages and pings; a read or write that cannot finish fails at its timeout and not before, a changed timeout counts from the next read and removing it removes it, Write returns what the connection accepted; bytes left in a finalized Reader never show up in another one; a text message ends a websocket connection and none of it is delivered; addresses and deadlines are those of the connection below.",
 ["inputs", "schedules", "configurations"], "all sequences of reads and writes, sizes, timeouts, arrival times and message boundaries",
 "no test uses them but through frames, with no timeouts and one write per frame",
 ["reader.go", "writer.go", "ws/server/conn.go", "ws/server/overlay.go", "ws/client/conn.go"],
 [("reads with timeouts", "reader.go ReadBytesWithMaxTimeout"), ("pooled buffers", "reader.go NewReaderWithTimeout/Finalize"), ("writes", "writer.go Write"), ("messages to bytes", "ws/server/conn.go Read")])
prop("R01", "Each request is handled once and gets its own response, in both directions",
 "Every request, from client to server or from server to client, blocking or not, on any number of connections and from any number of goroutines, reaches exactly one handler invocation of the right peer with its own content, and the caller that issued it receives exactly the response written for it, never another one's. Ids in flight on a connection are distinct, odd when chosen by the client and even when chosen by the server.",
 ["schedules", "inputs", "histories", "configurations"], "all interleavings of requests, responses and response orders over shared connections in both directions",
 "tests use one or two connections and check that some response arrives, hardly whose it is; reordering of responses is not generated",
 ["clientconn.go", "serveconn.go", "stream.go", "framereader.go"],
 [("request ids", "clientconn.go nextRequestID, serveconn.go nextRequestID"), ("pending responses", "clientconn.go readFrames/writeBuffers, serveconn.go readFrames/writeBuffers")])
prop("R02", "Blocking requests of a connection are handled one at a time, in order",
 "Requests sent without the non-blocking flag on one connection are handled in arrival order, one at a time; no frame that arrives after a blocking request starts a handler before the blocking one's handler has returned, even if that handler panics or never answers. Other connections are not held up.",
 ["schedules", "inputs", "histories"], "all pipelined mixes of blocking, non-blocking and streamed requests, handler durations and outcomes",
 "tests send blocking requests one by one and wait for each response, so overlap or reordering cannot be observed",
 ["serveconn.go"], [("read gate", "serveconn.go readFrames/serve")])
prop("R03", "Non-blocking and streamed requests are handled in parallel",
 "A handler of a non-blocking or streamed request that takes arbitrarily long never delays the handling or the response of any other request on the same connection, in either direction; all requests of a connection can be in progress at once, as long as each streamed handler keeps reading its own stream.",
 ["schedules", "inputs", "histories"], "all mixes of slow and fast non-blocking requests on a connection, both directions",
 "tests never make one handler depend on another one's progress",
 ["serveconn.go", "clientconn.go"], [("goroutine per non-blocking request", "serveconn.go serve, clientconn.go readFrames")])
prop("R04", "A request that its handler fails or ignores ends with an error",
 "When the handler of a request returns without answering it, or panics before answering or in the middle of a streamed answer, the requester's pending or next read ends (with the stream-closed error when nothing was answered) instead of waiting forever, in both directions; the connection and every other request on it are unaffected.",
 ["histories", "inputs", "schedules"], "all mixes of answering, ignoring and panicking handlers, blocking or not, streamed or not, both directions",
 "no test lets a handler panic or return without a response",
 ["serveconn.go", "clientconn.go", "framereader.go", "stream.go"],
 [("error frame after the handler", "serveconn.go handleRequestPanic, clientconn.go handleRequestPanic"), ("reset frames reach the pending response", "framereader.go ReadFrame, readFrames")])
prop("R05", "Handlers and middleware see their own request and connection",
 "What a handler or middleware function learns about a request is about that request and the connection it came on: its ConnectionInfo or ClientConnectionInfo, RemoteAddr, what was stored with SetAnything, FromClient, a stash that starts empty and carries what earlier middleware of the same request stored, and a context that is alive while it runs; StreamInitiator reaches exactly the requester, and Close ends exactly that connection. Both at the server and at the client, for any number of concurrent requests and connections.",
 ["schedules", "histories", "inputs"], "all interleavings of requests in both directions over several connections and bindings, middleware chains, handler durations and closes",
 "tests have one connection or do not look at whose information a handler gets; no test uses stashes or RequestFrame.Close",
 ["frame.go", "serveconn.go", "clientconn.go", "middleware.go", "server.go"],
 [("accessors", "frame.go RequestFrame methods"), ("connection context", "server.go newConn, clientconn.go newConnection")])
prop("S01", "Streams deliver every frame once, in order, then end; streams never mix",
 "On a stream, in either direction and in both at once, the receiver sees exactly the frames the sender wrote successfully, in order and with their content, followed by the end of the stream exactly when the sender ended it. Any number of concurrent streams and plain requests on one connection never see each other's frames.",
 ["schedules", "inputs", "histories"], "all interleavings of streams in both directions, frame counts and sizes, consumer speeds",
 "tests run one short stream at a time with a cooperative reader",
 ["stream.go", "framereader.go", "clientconn.go", "serveconn.go"],
 [("stream demultiplexing", "framereader.go ReadFrame"), ("in frame delivery and half close", "stream.go AddInFrame/closePeerIfNeeded")])
prop("S02", "Nothing is sent on a side of a stream after it has been ended",
 "After a sender ended or reset its side of a stream, or answered a request with a final frame, every further frame written on that side, from any goroutine, is refused with an error and puts nothing but at most another reset on the connection; of several racing final writes exactly one takes effect.",
 ["histories", "schedules", "inputs"], "all sequences and races of write, end and reset on one side of a stream, either role, with the other side open or closed",
 "tests stop writing after the last frame",
 ["stream.go", "clientconn.go", "serveconn.go"],
 [("half-close bookkeeping", "stream.go AddOutFrame"), ("existence check of stream writers", "clientconn.go collectWriteFrames, serveconn.go collectWriteFrames")])
prop("S03", "A reset cancels exactly its own stream",
 "When a peer resets a stream, the request's context is cancelled, the receiver's frame channel ends, and the requester of a reset, unanswered request gets the stream-closed error; no other stream or request on the connection is affected. A reset for an unknown, finished or already reset stream has no effect, a handler whose request was reset may still finish its own answer, and the side that reset its stream still receives what the other one sends on it.",
 ["histories", "schedules", "inputs"], "all points of a stream's life at which either side may reset, repeated and stray resets, other traffic alongside",
 "one test cancels a single stream at one fixed point",
 ["stream.go", "framereader.go", "clientconn.go", "serveconn.go"],
 [("reset handling", "framereader.go ReadFrame, stream.go ResetByPeer/AddOutFrame")])
prop("S04", "Unread streams never stall the rest of the connection",
 "A handler that returns (or panics) without reading its request stream to the end, a pushed or answering stream nobody reads because there is no subscriber or no pending request, and frames for unknown streams never stop other requests on the same connection from being read and answered; the context of a request is cancelled when its handler has returned. (Streams somebody is still there to read, a running handler, an existing subscriber or the caller of a request it has not reset, are flow controlled by that reader.)",
 ["histories", "schedules", "inputs"], "all handler exit points relative to the remaining frames of its stream, with other traffic behind them",
 "tests always drain every stream",
 ["framereader.go", "stream.go", "serveconn.go", "clientconn.go", "frame.go"],
 [("delivery to a stream", "stream.go AddInFrame"), ("end of a handler", "serveconn.go handleRequestPanic, clientconn.go handleRequestPanic")])
prop("P01", "A push reaches its subscriber exactly once, in order, and only it",
 "Every pushed frame, from server to client or client to server, streamed or not, is delivered to the one subscriber of the receiving connection exactly once, in the order it was sent, with its content; it never answers, disturbs or is mistaken for a request or response, even when its id equals one in flight. Walking connections reaches exactly the connections open at the time, and by id exactly those bound to the id.",
 ["schedules", "inputs", "histories"], "all mixes of pushes and requests with equal and distinct ids, several connections, both directions",
 "the push tests send one message to one client and wait for it",
 ["server.go", "serveconn.go", "clientconn.go", "stream.go"],
 [("push streams kept apart", "stream.go ConnStreams"), ("subscriber call", "clientconn.go readFrames, serveconn.go readFrames"), ("walk", "server.go WalkConn/WalkConnByID")])
prop("L01", "Losing a connection ends everything pending on it, on both sides",
 "When a connection breaks at any byte in either direction, or is closed by either end at any time, every pending request, response stream, handler stream read and frame write on it ends within bounded time with an error or a complete result, and handler contexts are cancelled; a response reported as received is complete and correct, and other connections are not affected.",
 ["crash_points", "schedules", "fault_sequences"], "all byte positions of a break in either direction, resets, half closes, closes by either side, with any traffic in flight",
 "tests never break a connection with work in flight",
 ["clientconn.go", "serveconn.go", "stream.go", "framereader.go", "writer.go"],
 [("pending responses closed", "clientconn.go closeRWC, serveconn.go closeUntracked"), ("streams released", "stream.go Release"), ("writes abandoned", "writeFrameBytes")])
prop("L02", "Server connection lifecycle callbacks fire exactly once and in order",
 "For every accepted connection the close notifications registered on it each run exactly once, at once if it is already closed, the connection's context is cancelled, it disappears from the set of walked connections, and the close callback runs exactly once after all its handlers have ended, however and by whomever the connection was closed. A connection rejected by the accept callback is closed without ever running a handler, and its close callback runs once.",
 ["schedules", "fault_sequences", "histories"], "all ways and orders of closing (peer, handler, server, errors, kick), with registrations racing with the close",
 "no test uses the lifecycle callbacks",
 ["serveconn.go", "server.go"],
 [("close bookkeeping", "serveconn.go Close/closeUntracked/NotifyWhenClose"), ("accept loop", "server.go Serve")])
prop("L03", "Shutdown stops accepting, ends every connection's work and returns",
 "After Shutdown is called, at any time, even before serving starts or concurrently or repeatedly, no new connection is served, serving returns the server-closed error, every connection is ended, and Shutdown returns only after every handler has returned; registered shutdown functions run exactly once, immediately if registered afterwards.",
 ["schedules", "histories"], "all times of Shutdown relative to serving, accepting, handling and other Shutdown calls, several bindings",
 "no test shuts a server down with clients connected",
 ["server.go"], [("listener close and wait group", "server.go Shutdown/Serve/ServeAll")])
prop("L04", "Closing a client ends it completely and leaks nothing",
 "After Close, by any goroutine at any time, every pending and later call on the connection returns an error in bounded time, Done is closed, Wait returns, the network connection is closed, connect and disconnect callbacks have run in matched pairs, and no goroutine of the connection remains; a second Close reports the already-closed error.",
 ["schedules", "histories", "fault_sequences"], "all moments of Close relative to dialling, requests, streams, pushes and reconnects, plain and reconnecting connections",
 "tests leak their connections or close them when idle",
 ["clientconn.go"], [("loop and contexts", "clientconn.go loop/Close/closeRWC/writeFrameBytes")])
prop("L05", "A reconnecting client survives any sequence of losses",
 "A reconnecting client whose connection is lost, any number of times and at any point, connects again to one of its addresses as soon as one accepts, and from then on requests succeed again; requests pending at a loss fail rather than being answered by another connection's frames or handled twice, and connect and disconnect callbacks alternate strictly.",
 ["fault_sequences", "schedules", "histories"], "all sequences of losses, refused dials and recoveries over several addresses with traffic",
 "no test breaks a reconnecting client's connection",
 ["clientconn.go"], [("reconnect loop", "clientconn.go loop/connect/endLoop")])
prop("L06", "A reconnected client behaves exactly like a new one",
 "After any number of lost connections, however they ended and whatever they had carried, a reconnecting client on its next connection behaves in every observable respect like a client that has just connected: requests, streams, resets, pushes, subscriber and handler, concurrent writers, compression, read and write timeouts, and what happens when that connection is lost too. Nothing of an earlier connection (streams, pending responses, partial frames, timeouts, buffers) shows on a later one.",
 ["histories", "schedules", "configurations"], "all scenarios of the other properties after all histories of lost connections",
 "the tests never use a connection made again",
 ["clientconn.go", "reader.go", "writer.go", "stream.go"], [("per connection state of a reconnecting client", "clientconn.go connect/closeRWC/endLoop/readFrames/writeFrames")])
prop("L07", "Failing listeners never stop, slow down or leak from a server",
 "Whatever the listener of a binding does (accepting fails for now or for good any number of times, yields a connection that cannot be used, the listener is closed by someone else, reports an error when closed, or cannot be opened in the first place), over every transport: clients that connect afterwards are still served, after a bounded delay, other bindings and existing connections are not affected, failures are not retried busily, unusable connections are closed, a failed start leaves nothing listening and can be tried again, and Shutdown still stops everything and returns.",
 ["fault_sequences", "schedules", "configurations"], "all sequences of listener failures on any number of bindings with clients connecting before, between and after them, and a shutdown at any point",
 "the tests' listeners never fail",
 ["server.go", "ws/server/overlay.go"], [("accept loop", "server.go Serve"), ("listeners", "server.go ListenAll/Shutdown/closeListenersLocked"), ("websocket accept loop", "ws/server/overlay.go newOverlay/Accept/Close")])
prop("L08", "What is cut off never passes for whole",
 "Whenever a connection ends while streams are in flight, by Close of either end, in a handler, by Shutdown, by a kick or by the network, or a stream is reset by its sender, a reader of the stream (handler, subscriber or requester) which sees it end without its last frame finds its context done at that moment, the frames it got are the first ones that were sent, no answer made from an incomplete request reaches the requester as the answer to it, and an answer arriving meanwhile is never handed to the handler as a request.",
 ["schedules", "fault_sequences", "histories"], "all interleavings of streamed requests and pushes of both ends with all ways a connection can end",
 "no test ends a connection while a stream is read",
 ["stream.go", "serveconn.go", "clientconn.go", "server.go"], [("end of a stream", "stream.go ResetByPeer/AddInFrame/Release"), ("writing while closing", "serveconn.go writeFrameBytes, clientconn.go writeFrameBytes"), ("reading while closing", "serveconn.go readFrames/closeUntracked")])
prop("I01", "An id is bound to at most one connection; the newest one wins",
 "At any time an id of a binding is bound to at most one open connection; binding it to another connection kicks the previous holder, which is closed after the kick callback has run exactly once on it, and a lookup by id afterwards yields the newest holder until that one closes, never a closed one. Concurrent binds of one id leave exactly one holder, kick orders grow, other ids and bindings are not affected, and a configured counter metric counts each kick.",
 ["schedules", "histories", "inputs"], "all interleavings of binds, kicks, closes and lookups over several ids and connections",
 "no test binds an id twice",
 ["server.go", "serveconn.go"], [("id table", "server.go bindID/untrack"), ("SetID", "serveconn.go SetID")])
prop("K01", "Calls from callbacks return",
"Functions the library calls (OnAccept, OnClose, OnKickCB, SubFunc, middleware, handlers, close notifications, walk and shutdown functions of a server; OnConnect, OnDisconnect, subscriber and handler of a client) may call the library themselves; each such call which does not wait for its own caller returns, no matter when connections are lost, closed, kicked or the server is shut down, and afterwards clients work on, reconnect, and client and server can be closed.",
["schedules", "fault_sequences", "histories"], "all combinations of callbacks with calls of the library from within them, with all interleavings of traffic and losses",
"no test calls the library from a callback other than a handler",
["clientconn.go", "serveconn.go", "server.go"], [("callbacks of a client", "clientconn.go loop/releaseWhenLost"), ("callbacks of a server", "serveconn.go serve/closeUntracked, server.go WalkConn/OnShutdown/Shutdown")])
prop("E01", "What ended is forgotten",
"Requests of either end, however they end (answered, failed, denied, abandoned, expired or reset), streams, pushes, channels, connections which come and go in any way, kicked ids, lost connections of a reconnecting client, API connections and whole servers leave no memory and no goroutines behind, however many there are; the id of a request can be used again on its connection once the request is answered.",
["histories", "inputs", "fault_sequences"], "all kinds of work in all combinations, any number of times",
"tests are short and never look at memory",
["stream.go", "clientconn.go", "serveconn.go", "server.go", "api.go"], [("streams", "stream.go afterDone/CreateOrGetStream"), ("pending requests", "clientconn.go readFrames/closeRWC, serveconn.go readFrames"), ("connections and ids", "server.go untrack/bindID")])
prop("E02", "Numbers do not matter",
"However many requests a connection has carried, are pending at once or are made while an old one is pending, in either direction, however many pushes around an open one, frames of a stream, streams at once, connections and ids of a server, bindings, losses of a reconnecting client, commands and middleware functions there are, and whatever the queue sizes, each gives exactly its own result.",
["inputs", "histories", "configurations"], "all numbers and queue sizes, in particular around powers of two and beyond 16 bits",
"tests use fixed numbers and never mix old with new requests",
["clientconn.go", "serveconn.go", "server.go", "stream.go"], [("ids", "clientconn.go nextRequestID, server.go GetPushID"), ("tables", "clientconn.go respes, stream.go ConnStreams, server.go activeConn/id2Conn")])
prop("E03", "Time changes nothing",
"Where no timeout is configured and no deadline given, pauses of any length change nothing: requests, streams, answers, pushes, channels, calls and lookups by id, in either direction, in progress or about to begin, while a handler, a writer, a peer, a throttled server or the way to a server is slow for however long, end as they would have at once; where a caller gives a deadline, waiting ends exactly then.",
["histories", "schedules", "inputs"], "all points of all exchanges at which either end may pause, for any time",
"tests pause for two seconds at most",
["clientconn.go", "serveconn.go", "server.go", "stream.go", "api.go", "framereader.go"], [("waiting", "clientconn.go GetFrameWithContext, stream.go Done/FrameCh"), ("optional timeouts", "framereader.go, writer.go, serveconn.go"), ("reconnecting and throttling", "clientconn.go connect, server.go Serve/SetThrottle")])
prop("B01", "Bindings are independent of each other",
 "A binding of a server behaves as if it were the only one: its handler, size limit, rate limits, in-flight limit, timeouts, codec, callbacks, metrics, connections, ids and throttling apply to all of its own connections and to nobody else's, whatever the other bindings of the server are configured to, in whatever position it is.",
 ["configurations", "histories", "schedules"], "all combinations of configurations of bindings, positions, and histories on them",
 "the tests use one binding",
 ["server.go", "serveconn.go"], [("per-binding state", "server.go NewServer/Serve/bindID/untrack/WalkConn/SetThrottle"), ("configuration of a connection", "serveconn.go serve/readFrames/writeFrames, server.go newConn")])
prop("Q01", "The frame size limit is exact and isolates the offending connection",
 "A frame whose declared length is at most the binding's limit (the documented default when none is set) is accepted, a longer one or one shorter than a header closes that connection without running a handler for it and without waiting for or buffering its body; earlier frames of the connection are still handled and other connections are not affected.",
 ["inputs", "configurations"], "all limits and declared lengths around them, any fragmentation and position in the traffic",
 "no test sets a limit",
 ["framereader.go", "serveconn.go"], [("size check", "framereader.go readFrame")])
prop("Q02", "The in-flight limit admits exactly its number of parallel requests",
 "With a limit on in-flight inbound requests per connection, up to that many non-blocking or streamed requests are handled at once without interference, the connection is closed when one more arrives, and finished, panicked or unanswered handlers give their place back; blocking requests neither consume nor mint places, and other connections have their own count.",
 ["histories", "configurations", "schedules"], "all limits and arrival and completion orders of requests",
 "no test sets the limit",
 ["serveconn.go"], [("in-flight counter", "serveconn.go serve/handleRequestPanic")])
prop("Q03", "The inbound frame rate limit cuts off exactly the excess",
 "With a limit on inbound requests per second, a connection that stays within the limit in every clock second is never disturbed, and one that exceeds it within one second is closed with the excess request not handled; other connections are counted separately.",
 ["histories", "configurations"], "all arrival schedules and limits",
 "no test sets the limit or controls the clock",
 ["serveconn.go"], [("per second counter", "serveconn.go readFrames")])
prop("Q04", "Read timeouts close idle or stalled connections, and only those",
 "With a read timeout a connection on which no complete frame header arrives for that long, or whose frame body stalls for longer than the smaller of the timeout and three seconds, is closed at that time; a connection whose frames keep arriving in time, or one with no timeout, is never closed for silence; changing the timeout of a connection applies from its next read. The same holds for clients.",
 ["schedules", "configurations", "inputs"], "all timeouts and arrival schedules of bytes",
 "tests use no timeouts and real time",
 ["reader.go", "framereader.go", "clientconn.go", "serveconn.go"], [("deadlines", "reader.go ReadBytesWithMaxTimeout")])
prop("Q05", "Write timeouts bound how long a stuck peer can hold a writer",
 "With a write timeout a write to a peer that accepts nothing fails after the timeout and its connection is closed on both roles; a peer that is merely slow and finishes within the timeout, or any finite slowness when there is no timeout, loses nothing and is not disconnected.",
 ["schedules", "configurations", "inputs"], "all timeouts, stall lengths and positions in the byte stream",
 "tests never have a slow peer",
 ["writer.go", "serveconn.go", "clientconn.go"], [("deadline slices", "writer.go writeBuffers")])
prop("Q06", "Throttling delays new work and loses none of it",
 "While a binding is throttled each of its connections starts at most the one request it had already read, and it accepts at most the connection already being accepted; other bindings run on; when the throttle is cleared everything delayed is handled exactly once and in order. Setting and clearing in any sequence, and closing or shutting down while throttled, is safe.",
 ["histories", "schedules"], "all sequences of set and clear with traffic, closes and shutdown",
 "no test throttles",
 ["server.go", "serveconn.go"], [("throttle gate", "server.go SetThrottle/ClearThrottle/waitThrottle")])
prop("M01", "Requests are routed by the low two command bytes, through the middleware chain",
 "A mux runs exactly the handler registered for a request's low two command bytes, whatever its opaque byte, after running the registered middleware in order until one declines, in which case nothing later runs; an unregistered command closes the connection without running any handler. Registering the same route twice, a nil handler or an oversized command panics instead of silently replacing anything.",
 ["inputs", "configurations", "histories"], "all registrations, commands with any opaque byte, middleware chains and decisions",
 "tests register a few constants and use no opaque byte or declining middleware",
 ["server.go", "middleware.go", "qrpc.go"], [("mux", "server.go ServeMux"), ("middleware", "middleware.go")])
prop("M02", "Metrics count every handled request exactly once",
 "With metrics configured every handled request, answered, ignored or panicked, adds exactly one to the counter and one latency observation under its own command and error label, the latency being the time its handler took; nothing is recorded for requests that were never handled.",
 ["histories", "inputs"], "all mixes of commands, outcomes and durations",
 "tests configure metrics without looking at them",
 ["serveconn.go"], [("instrumentation", "serveconn.go instrument")])
prop("Q07", "The close rate limit spreads closes out and loses none",
 "With a limit on closes per second a binding's connections end at most that fast, counted from the first one on, whoever ends them (a handler, a malformed frame, the client, the network or Shutdown; kicks are exempt); every connection that is to end does end, the others are served meanwhile and afterwards, and each binding has its own limit or none.",
 ["configurations", "schedules", "histories"], "all rates, numbers of connections, ways and times of ending them",
 "no test sets the limit",
 ["serveconn.go", "server.go"], [("limiter", "serveconn.go Close, server.go NewServer closeRateLimiter")])
prop("Z01", "Compression is transparent and fails safe",
 "With a codec on both ends (one that never encodes something to nothing) a frame written with the codec flag is delivered with its original payload and every frame without the flag is untouched, whatever the codec does to the size; the flag is on the wire only if the body is encoded. A codec failure or a missing codec makes that one write fail without sending anything or corrupting later frames, and an undecodable body ends its connection only.",
 ["inputs", "configurations", "histories"], "all payloads, codecs that shrink, grow or fail, flags, both directions, streams",
 "no test uses a codec",
 ["framewriter.go", "framereader.go"], [("encode", "framewriter.go EndWrite"), ("decode", "framereader.go readFrame")])
prop("H01", "No sequence of bytes from a client can harm the server or other clients",
 "Whatever bytes or frames a client sends, in any order, the server process never crashes or spins, other connections keep being served, and the offending connection can still be closed by either side with all its handlers (that read their stream or end by themselves) and its close callback finishing, so that shutdown completes.",
 ["inputs", "histories", "schedules"], "all frame sequences with arbitrary ids, flags, commands and payloads, garbage bytes, and any handler behaviour",
 "tests only send what this library's own client produces",
 ["framereader.go", "stream.go", "serveconn.go"], [("frame state machine", "framereader.go ReadFrame, stream.go")])
prop("H02", "No sequence of bytes from a server can crash or wedge a client",
 "Whatever bytes or frames a server sends, in any order, the client process never crashes, spins or allocates memory for what was merely announced, every pending request of the client still ends when its connection ends, and the client can always be closed completely.",
 ["inputs", "histories", "schedules"], "all frame sequences with arbitrary ids, flags, commands and payloads, and garbage bytes",
 "tests only talk to this library's own server",
 ["framereader.go", "stream.go", "clientconn.go"], [("frame state machine", "framereader.go ReadFrame, stream.go, clientconn.go readFrames")])
prop("A01", "The balancing API calls the right endpoints and recovers from failures",
 "A call to one endpoint is handled by exactly that endpoint and a call to all by each endpoint once, each result being that endpoint's own; a balanced call is handled by one endpoint of positive weight while the endpoints are reachable, is answered when the chosen endpoint is down but an established connection to another one works, and an endpoint that comes back is used again. Unknown endpoints and closed APIs report their errors, and a cancelled context ends the wait for an answer without the call being sent again.",
 ["fault_sequences", "inputs", "schedules", "histories"], "all sequences of calls, endpoint failures and recoveries, weights and concurrent callers",
 "the test calls one healthy endpoint",
 ["api.go"], [("endpoint selection and fallback", "api.go Call/CallOne/CallAll")])
prop("C01", "Channels carry typed messages both ways in order and end cleanly",
 "Over a channel each message sent by one end is received by the other exactly once, in order, with its command and value, on streams opened by either the client or the server; after the sender's final message or end the receiver gets the finished error while the other direction goes on, sending after the end fails, and receiving honours its context without losing a message. Concurrent channels on one connection do not mix.",
 ["inputs", "schedules", "histories"], "all message sequences, end modes and interleavings over several channels, both initiators",
 "the test exchanges a few fixed messages",
 ["channel/clienttransport.go", "channel/servetransport.go", "channel/encode.go"], [("transport over streams", "channel/")])
prop("W01", "The websocket and TLS transports behave exactly like plain TCP",
 "The same program of requests, streams, pushes and closes gives the same observable results over plain TCP, TLS, websocket and websocket with TLS, for every payload size and write pattern, including reconnecting clients and peers that send their bytes in arbitrary websocket messages.",
 ["inputs", "configurations", "histories"], "all programs, payload sizes and message boundaries over each transport",
 "tests run one request over each transport",
 ["ws/client/conn.go", "ws/server/conn.go", "ws/server/overlay.go", "clientconn.go", "server.go"],
 [("byte stream over messages", "ws/server/conn.go"), ("transport selection", "clientconn.go connect, server.go ListenAll")])
prop("W02", "Transport options, failed dials, restarts and shutdown work on real sockets",
 "Over loopback sockets, every combination of plain TCP, TLS and websocket the configuration selects connects and serves requests, on the first connection and on every later reconnection; a client and server whose transports do not match, and a server that never completes its handshake, make connecting fail within the dial timeout instead of hanging; configured buffer sizes and the keep-alive period take effect on both ends, whichever constructor made the connection, and do not change results; after a restart of the server a reconnecting client serves requests again; and Shutdown ends every connection, including those still in a handshake or not yet accepted.",
 ["configurations", "fault_sequences", "inputs"], "all combinations of transport, options, mismatches, stalled handshakes, restarts and shutdowns, over real sockets",
 "tests connect once with matching default options",
 ["clientconn.go", "server.go", "ws/client/overlay.go", "ws/server/overlay.go", "conf.go"],
 [("dialing", "clientconn.go dialTCP, ws/client/overlay.go"), ("listening", "server.go ListenAll, ws/server/overlay.go")],
 note='Generated-input search over real loopback sockets with an explicit oracle; timing only by generous bounds; absence of a violation is not proved.')
prop("G01", "Generated service code compiles and calls what was registered",
 "For every set of services with supported method signatures the generator emits code that compiles, and a call through the generated client runs the method of that name in that namespace exactly once with an equal input and returns its output, whether the types marshal themselves or through JSON.",
 ["programs", "inputs"], "all services, sub services, method sets and type kinds",
 "no test generates code",
 ["codegen/generator.go"], [("code templates", "codegen/generator.go Generate")],
 note='Generated programs are compiled and run against an explicit oracle; absence of a violation is not proved.')
prop("G02", "Service calls are dispatched by exact name; failures come back as errors",
 "A call names a namespace and method; exactly the callback registered under both runs, once, with the exact parameter bytes, and its result bytes or its error text reach that caller; an unknown name or an undecodable request is answered with the error command and the connection is closed, and a caller whose context ends gets the context's error. The request encoding round-trips for all strings and bytes.",
 ["inputs", "histories", "schedules"], "all names, parameter and result bytes, outcomes and concurrent callers over several endpoints",
 "no test covers code generation at run time",
 ["codegen/client.go", "codegen/service_handler.go", "codegen/pb/rpc.pb.go"], [("dispatch", "codegen/service_handler.go"), ("client", "codegen/client.go"), ("encoding", "codegen/pb/rpc.pb.go")])
prop("T01", "The command line tools speak the documented format",
 "The packet tool prints exactly the documented encoding of the frame described by its options, and the curl-like tool sends exactly that request and prints exactly the response it gets, over TCP and websocket; out-of-range options are rejected without sending anything.",
 ["inputs"], "all option values and payloads",
 "no test runs the tools",
 ["tool/packet/main.go", "tool/qrpcurl/main.go"], [("encoding", "tool/packet/main.go"), ("request", "tool/qrpcurl/main.go")])
prop("D01", "The public API is free of data races",
 "Connections, servers, connection infos, responses, writers obtained separately and the balancing API may be used from any number of goroutines at once, in all documented combinations, without data races or crashes.",
 ["schedules", "histories"], "all concurrent combinations of public operations",
 "tests run without the race detector and with little concurrency",
 ["serveconn.go", "clientconn.go", "server.go", "api.go", "stream.go"], [("locks and atomics", "all connection state")],
 note='Generated scenarios under the Go race detector, which reports only races that happen in an explored schedule; absence of a race is not proved.')
