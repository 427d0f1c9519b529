import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))
W="wruster/src/"
p("C01","Reading any byte stream ends cleanly: a message or an error, never a panic",
 "For any byte sequence, delivered in any fragmentation (with any interrupted reads) and ending in end-of-stream or an I/O error, reading a request, a response or a header returns a message or an error: it never panics and never keeps polling a source that has ended. The outcome (the fields, or the error) is the same however the bytes were split into reads. Bytes that end before the header block is complete are never accepted as a message.",
 ["inputs","fault_sequences"],"all byte strings x all splits into reads x all end conditions (EOF, TimedOut, NotConnected, reset, Interrupted at any point)",
 "The tests parse a dozen hand-written valid or nearly valid lines, each from one in-memory buffer; none is truncated, none is fragmented, none ends in an error.",
 [W+"http/mod.rs",W+"http/headers.rs",W+"http/errors.rs"],
 [("request line reader",W+"http/mod.rs HttpRequestLine::read_from"),("status line reader",W+"http/mod.rs HttpResponseLine::read_from"),("header reader loop and line parser",W+"http/headers.rs Header::read_from, parse_header_line"),("error mapping",W+"http/errors.rs From<io::Error>")],
 observe=["Request::read_from","Response::read_from","Header::read_from","Headers::read_from"])
p("C02","Accepted requests say exactly what was sent; malformed ones are refused",
 "A request that conforms to RFC 7230 (one of the nine methods, a target without spaces, a version, well-formed header fields, at most one numeric Content-Length) is accepted, and the method, target, version, every header value (surrounding optional white space removed, order kept per name) and the body it reports are exactly those on the wire. A request with a malformed request line (unknown or wrongly-cased method, missing part, missing CR LF, control characters in the target, invalid version) or a malformed header field (no colon, no CR LF, empty or non-token name, control character in the value) is refused as an invalid request, and so is any with several or non-numeric Content-Length values or a Transfer-Encoding other than identity refused with some error. An empty stream is reported as a closed connection.",
 ["inputs"],"all valid requests of a generative grammar, and all single-fault mutations of them",
 "Tests check single examples of a header and of one request; they never compare all fields of a generated request with what was sent and only five malformed header lines are tried.",
 [W+"http/mod.rs",W+"http/headers.rs"],
 [("request line parsing",W+"http/mod.rs HttpRequestLine::read_from"),("token and field-content character classes",W+"http/mod.rs MessageChar"),("header parsing",W+"http/headers.rs parse_header_line"),("framing header checks",W+"http/mod.rs Body::read_from")],
 observe=["Request::read_from","Request::read_from_str"])
p("C03","Headers keep every value in order and are found whatever the name's case",
 "A header field received with any capitalisation of its name is found under its canonical name (first letter of each hyphen-separated part upper-case) and governs the message (body framing, connection persistence) exactly as the canonical spelling would. A header collection built by any sequence of additions returns, for each name, exactly the values added in the order added, iterates over nothing else, and writes one line per value that reads back to the same collection.",
 ["inputs","histories"],"all header names and values over the legal alphabets, all capitalisations, all sequences of additions",
 "Tests cover four spellings, all lower-case or canonical, and at most two values for one name.",
 [W+"http/headers.rs"],
 [("name normalisation",W+"http/headers.rs normalize_header_name"),("multi-map",W+"http/headers.rs Headers::add, get, iter"),("writer",W+"http/headers.rs Headers::write, Header::write")],
 state=[("headers","map from name to the values in arrival order",W+"http/headers.rs struct Headers")],
 observe=["Headers::add/get/iter/write/read_from"])
p("C04","A message body is exactly the announced number of bytes",
 "A body read from a stream yields exactly the Content-Length bytes that follow the header block, the same whatever the sequence of read sizes, and never a byte beyond them even when more follow; no Content-Length, or zero, means no body. After any partial consumption, whether through the body or through its content reader, ensuring the body is read leaves the stream positioned exactly at the end of the body. A body cut short by the end of the stream yields exactly the bytes that arrived, and an I/O error while reading is reported.",
 ["inputs","histories","fault_sequences"],"all body sizes, trailing data, read-size sequences, partial-consumption points, and I/O faults",
 "Tests use a 4-byte body with nothing after it, read in one go.",
 [W+"http/mod.rs"],
 [("length-limited reader",W+"http/mod.rs Body::read_from"),("byte accounting",W+"http/mod.rs impl Read for Body, Body::ensure_read")],
 state=[("bytes_read","bytes consumed through Body::read",W+"http/mod.rs struct Body")],
 observe=["Body::read_from","Body::ensure_read","Read for Body","Body.content"])
p("C05","Written messages are complete, self-delimiting, and failures are reported",
 "Writing a response, a request made from a body, or a message with its own Content-Length to any sink, including one that accepts only part of each write or interrupts, produces one complete message: correct start line, every header once, exactly one Content-Length equal to the number of body bytes that follow, and the whole body whatever its size. Reading that output back gives the same start line, headers and body. If the sink fails, or the content is shorter than its declared length, at any point, the write returns an error.",
 ["inputs","fault_sequences"],"all responses and requests that can be built through the public constructors x all sinks (short writes, Interrupted, failure after any number of bytes, also at flush) x body sizes up to several MiB",
 "Tests write small messages to a Vec, which never writes short and never fails.",
 [W+"http/mod.rs",W+"http/headers.rs"],
 [("response writer",W+"http/mod.rs Response::write, HttpResponseLine::write"),("request writer",W+"http/mod.rs Request::write, from_body"),("body copy and its >2 MiB buffered path",W+"http/mod.rs Body::write"),("constructors",W+"http/mod.rs Response::from_status, from_content, FromStr")],
 observe=["Response::write","Request::write","Body::write"])
p("C06","Responses are read exactly as sent; malformed ones are refused",
 "A well-formed response (version HTTP/d.d, any three-digit status code, any reason phrase, header fields, Content-Length body) is accepted with exactly that status code, those headers and that body. A response whose status line has an invalid version, a status code that is not three digits, or no line end, or whose header fields or framing headers are malformed, is refused.",
 ["inputs"],"all well-formed responses of a generative grammar and single-fault mutations of them",
 "Only responses produced by the server itself in two or three integration tests are ever read.",
 [W+"http/mod.rs",W+"http/status.rs"],
 [("status line parsing",W+"http/mod.rs HttpResponseLine::read_from, validate_version"),("body framing",W+"http/mod.rs Body::read_from")],
 observe=["Response::read_from"])
p("C07","Status codes, methods and versions convert without loss",
 "Converting any number to a status code and back gives the same number, the forty codes of RFC 2616/7231 map to their own named status with its standard reason phrase and every other number to an extension code, and a status prints as that number followed by its reason. Each of the nine methods and three versions prints as its standard token and parses back to itself; every other string, including other capitalisations, is refused; two methods are equal exactly when they are the same method.",
 ["inputs"],"all numbers (exhaustively 0..=9999 plus random), all method and version strings",
 "Tests check three versions and one reason phrase out of the tables.",
 [W+"http/status.rs",W+"http/mod.rs",W+"http/version.rs"],
 [("number to code",W+"http/status.rs From<usize>"),("code to number, phrase, clone",W+"http/status.rs"),("method tokens",W+"http/mod.rs HttpMethod"),("version tokens",W+"http/version.rs")],
 observe=["StatusCode","HttpMethod","Version"])
p("C08","A request goes to the most concrete handler registered for its path",
 "For any set of registered routes, a request is handled by the handler registered for its method on the longest route path that equals the request path or is a parent of it at a path-segment boundary; a route's path may be written with a trailing slash, empty or '.' segments, or '..' after a segment, which stands for the same route; registering the same path and method again replaces only that handler. If no such route exists the response is 404 and no handler runs. The order of registration never matters, and concurrent lookups give the same answers.",
 ["inputs","histories","schedules"],"all route tables (paths x methods x registration orders) and all request paths and methods",
 "Tests register at most two routes, look up exact paths, and never a sibling that shares a prefix or a parent whose child serves another method.",
 [W+"router/mod.rs",W+"router/trie.rs",W+"lib.rs"],
 [("longest prefix lookup",W+"router/trie.rs get_value_prefix"),("registration",W+"router/mod.rs Router::add, trie add_value/move_value_out"),("dispatch",W+"lib.rs run_action")],
 state=[("routes","trie of method tables",W+"router/mod.rs struct Router")],
 observe=["responses of a running Server"])
p("C09","Handlers see only normalised paths; paths above the root are refused",
 "The path a handler receives is the request path with empty and '.' segments and any trailing slash removed and each '..' applied to the segment before it. A request whose target is not an absolute path, or that climbs above the root at any point, gets an error response and no handler runs. Normalising is idempotent: a request for the normalised path reaches the same handler with the same path.",
 ["inputs"],"all request targets built from segments, '.', '..', empty segments, and raw bytes",
 "One unit test with five paths.",
 [W+"router/mod.rs",W+"lib.rs"],
 [("normalisation",W+"router/mod.rs Normalize for PathBuf"),("use before dispatch",W+"lib.rs run_action")],
 observe=["request.uri inside a handler of a running Server"])
p("C10","One response per request, in order, for as long as the connection persists",
 "On one connection, for any sequence of requests, sent one at a time or pipelined, in any fragmentation, and whatever part of each body the handler consumes, the k-th response answers the k-th request, each handler sees exactly its own request, and bytes of one request never leak into another. The connection stays open after a response exactly when the request, as it was received and whatever its handler made of it, was HTTP/1.1 without 'Connection: close', or HTTP/1.0 with 'Connection: keep-alive' and without close (options compared without regard to case, wherever in the lists of however many Connection headers they are); otherwise it is closed, without losing that response, and nothing after is answered. A malformed request is answered with 400 or just closed, after all earlier responses.",
 ["inputs","histories","schedules"],"all request sequences, versions, Connection headers, body sizes, handler consumption patterns, segmentations and pipelining depths",
 "Integration tests send one request per connection (one test sends two through the client), in a single segment, with a handler that reads all of the body.",
 [W+"lib.rs",W+"http/mod.rs"],
 [("conversation loop",W+"lib.rs handle_conversation, handle_connection"),("persistence rule",W+"lib.rs is_connection_persistent; http/mod.rs Request::is_connection_persistent"),("draining the body",W+"http/mod.rs Body::ensure_read")],
 observe=["bytes on a client socket of a running Server","what handlers observe"])
p("C11","A bad connection or a panicking handler never takes the server down",
 "After any history of connections that send arbitrary bytes, stop in the middle of a message, reset, time out, fail a TLS handshake, or whose handlers panic, of transient failures to accept (lack of descriptors) or to create a thread, and of interrupted waits (signals), the server still accepts new connections, answers well-formed requests correctly, can still serve its full number of simultaneous connections, and shuts down cleanly.",
 ["histories","fault_sequences","inputs"],"all histories of faulty connections (more than the number of workers) interleaved with probes",
 "No test sends a malformed request to a running server, and no handler panics.",
 [W+"lib.rs",W+"thread_pool/static_pool.rs",W+"thread_pool/dynamic_pool.rs",W+"http/headers.rs"],
 [("accept loop",W+"lib.rs accept_connections"),("worker loops",W+"thread_pool/static_pool.rs, dynamic_pool.rs"),("error paths",W+"lib.rs handle_connection")],
 observe=["probe requests to a running Server","Server::shutdown"])
p("C12","The server serves up to its maximum of connections at once, then answers 503",
 "Up to the pool's maximum (100, or the number of execution units if larger) simultaneous connections are each served at once, none waiting for another; every further connection meanwhile is answered with 503 and closed, without running a handler and without disturbing the others. When connections end, by any cause, exactly their places become available again.",
 ["histories","schedules"],"all histories of opening, holding, finishing and dropping connections around the capacity limit",
 "Thread pool tests use one or two workers; no test opens more than one connection to a server.",
 [W+"lib.rs",W+"thread_pool/mod.rs",W+"thread_pool/static_pool.rs",W+"thread_pool/dynamic_pool.rs"],
 [("pool sizing and busy path",W+"lib.rs accept_connections, handle_busy"),("static then dynamic workers",W+"thread_pool/mod.rs Pool::run")],
 observe=["handlers entered concurrently","503 responses"])
p("C13","Time limits bound the whole reading of a request and writing of a response",
 "A request that arrives within the read limit, however slowly and in however many pieces, is served; one whose bytes are still arriving when the limit (of any length, including fractions of a second) has passed since the server began to wait for it is not served and its connection is closed, and the same holds for an idle persistent connection. A client that does not take a response within the write limit, even if it keeps taking a little, has its connection closed; each request on a connection gets the full limits anew. The timeout handed to the underlying stream never exceeds what remains of the limit.",
 ["inputs","schedules","configurations"],"all limits, all drip schedules of request bytes and of response reading",
 "One test lets one idle connection expire with a 1 s limit; the stream test that sends two pieces is timing-dependent and skipped; nothing drips in pieces shorter than a second.",
 [W+"streams/timeout_stream.rs",W+"streams/cancellable_stream.rs",W+"lib.rs"],
 [("remaining-time accounting",W+"streams/timeout_stream.rs TimeoutStream, Operation"),("poll with timeout",W+"streams/cancellable_stream.rs read_int, write_int")],
 state=[("ongoing operation","time consumed by the current read/write",W+"streams/timeout_stream.rs struct Operation")],
 observe=["timeouts set on a mock stream","connections of a running Server"],
 hook="cfg(wruster_verif) re-export of TimeoutStream to drive it with a mock stream")
p("C14","Shutdown is graceful, complete and prompt; the lifecycle rejects misuse",
 "Shutting down stops accepting, closes idle and half-sent connections, lets every request already handed to a handler finish and its response reach the client in full, returns success only after those are finished, and leaves the address free to be bound again at once. Running a server twice, on a malformed or occupied address or without the descriptors or the thread it needs, or shutting down or waiting on one that was never run, returns an error and leaves a running server undisturbed and a stopped one usable.",
 ["schedules","histories","configurations"],"all mixes of idle, partial, executing and pipelined connections (plain and TLS) at the moment of shutdown; all misuse orders",
 "One test shuts down a server that never had a connection; others shut down with one idle connection and do not look at the result.",
 [W+"lib.rs",W+"streams/cancellable_stream.rs",W+"streams/observable.rs"],
 [("stop flag and notify",W+"lib.rs Server::shutdown, accept_connections"),("waking blocked readers",W+"streams/cancellable_stream.rs shutdown/read_int"),("tracked connections",W+"streams/observable.rs ObservedStreamList::drain"),("joining workers",W+"thread_pool Drop impls")],
 observe=["Server::run/run_tls/shutdown/wait","client sockets"])
p("C15","The static handler serves exactly the files under its directory",
 "For any directory tree, a request whose path names a regular file of the tree gets 200, that file's exact bytes, a Content-Length equal to the number of bytes sent even if the file grows meanwhile, and the media type of its extension (application/octet-stream when unknown). Any other path, including the root, directories and missing names, gets an error status without file content. That holds for each request by itself, as the tree is at that moment: files changed, replaced or deleted, and the whole directory missing for a while, without the server panicking. No request target, whether or not normalised beforehand, yields the content of a file outside the directory.",
 ["inputs","histories"],"all directory trees, file names and sizes, and all request targets (dot segments, repeated slashes, absolute paths, encoded forms)",
 "The handler has no tests at all beyond a compile-only example.",
 ["wruster_handlers/src/lib.rs","wrustatic/src/main.rs"],
 [("path resolution and metadata",  "wruster_handlers/src/lib.rs serve_static")],
 observe=["serve_static","a running Server and the wrustatic program"])
p("C16","The worker pool runs every accepted action exactly once, and nothing else",
 "For any minimum, maximum and order of submissions, an accepted action starts without waiting for any other to finish and runs exactly once; a refused action is handed back and never runs; no more than the maximum run at once. A submission is refused while that many are running and (once workers have settled) accepted otherwise, also after workers expired from idleness or an action panicked. Dropping the pool waits for every accepted action.",
 ["histories","schedules"],"all sequences of submissions, completions, panics, idle expiries and drops, for all small pool shapes",
 "Tests use one or two workers, at most three actions, and no panic or expiry under load.",
 [W+"thread_pool/mod.rs",W+"thread_pool/static_pool.rs",W+"thread_pool/dynamic_pool.rs"],
 [("rendezvous hand-over",W+"thread_pool/static_pool.rs Worker, dynamic_pool.rs DynamicWorker"),("free cells",W+"thread_pool/dynamic_pool.rs try_add_worker"),("round robin",W+"thread_pool/static_pool.rs Static::run")],
 state=[("next","next static worker to try",W+"thread_pool/static_pool.rs"),("free_cells","indices of dynamic workers that may be created",W+"thread_pool/dynamic_pool.rs")],
 observe=["Pool::run/drop"],
 hook="cfg(wruster_verif) re-export of the private pools")
p("C17","The HTTP client pairs every response with its own request",
 "For any sequence of requests to servers that follow HTTP/1.1, with responses consumed fully, partly or not at all, dropped at once or held, each successful call returns the response to that very request, and the server receives exactly the request given. A connection is reused for the next request to the same address once the response is dropped, and never while a response on it is outstanding, nor when the request or response asked to close it (anywhere in the lists of options of their Connection headers), or the response's end cannot be determined; so a server that closes when it says so never makes the next request fail.",
 ["histories","inputs","schedules"],"all sequences of requests over several addresses x response framings, sizes and segmentations x consumption and drop orders",
 "Two tests send one or two tiny requests to one server and drop the responses immediately.",
 [W+"http/client/mod.rs",W+"http/client/connection_pool.rs"],
 [("connection checkout",W+"http/client/mod.rs Client::run"),("return on drop",W+"http/client/mod.rs Drop for ClientResponse")],
 state=[("connection_pool","idle connections per address",W+"http/client/mod.rs struct Client")],
 observe=["Client::run, ClientResponse","requests and connections seen by a scripted server"])
p("C18","The client's idle pool behaves as a bounded, expiring LRU map",
 "For any sequence of insertions, retrievals and drains, a retrieved resource is the one most recently inserted under that key and is then no longer in the pool; the pool never holds more than its maximum of 100, and inserting one more key into a full pool evicts exactly the least recently used resource and keeps the new one. Resources idle for longer than the idle timeout are eventually removed and younger ones kept, and dropping the pool stops its worker promptly.",
 ["histories"],"all operation sequences over up to a few hundred keys, and idle timeouts",
 "Tests insert one resource; neither the limit nor eviction nor expiry is ever reached.",
 [W+"http/client/connection_pool.rs"],
 [("eviction",W+"http/client/connection_pool.rs insert, remove_lru"),("expiry worker",W+"http/client/connection_pool.rs expire_connections")],
 state=[("resources","key to resource and last use",W+"http/client/connection_pool.rs struct Pool")],
 observe=["Pool::insert/get/drain"],
 hook="cfg(wruster_verif) re-export of the private pool")
p("C19","TLS connections carry the same conversations as plain ones, byte for byte",
 "Over TLS, for any request and response sizes, record sizes, segmentation of the ciphertext and reading speed of the client, requests reach handlers and responses reach clients complete and unaltered, exactly as over a plain connection. Data already decrypted is never left waiting for more to arrive, and the last bytes of a response are never lost. A server given a key or certificate it cannot use never serves plain data and never takes the process down.",
 ["inputs","schedules","configurations"],"all message sizes around the buffer sizes (8 KiB reader, 16 KiB record, 64 KiB TLS buffer), record and segment splits, slow readers",
 "Two tests send five or about sixty bytes over TLS.",
 [W+"streams/tls/mod.rs",W+"streams/cancellable_stream.rs",W+"lib.rs"],
 [("TLS stream",W+"streams/tls/mod.rs Stream"),("poll then read/write, flush",W+"streams/cancellable_stream.rs")],
 observe=["a rustls client against Server::run_tls"])
p("C20","Every connection's resources are released when it ends",
 "However a connection ends (normal close, error, timeout, reset, refusal with 503, failed handshake, handler panic, shutdown), its descriptors are released and it is no longer tracked, so the number of open descriptors (and, after a shutdown, of threads) returns to its level before; the list of tracked streams holds exactly the streams of which a handle is still alive. Connections still in use are never dropped from it.",
 ["histories","fault_sequences"],"all histories of connections and endings; all sequences of tracking, cloning and dropping streams",
 "Two tests track a single stream; none counts descriptors.",
 [W+"streams/observable.rs",W+"lib.rs",W+"streams/cancellable_stream.rs"],
 [("tracking",W+"streams/observable.rs ObservedStreamList, Drop for ObservableStream"),("ownership in the accept loop",W+"lib.rs accept_connections")],
 state=[("items","weak references by key",W+"streams/observable.rs")],
 observe=["/proc/self/fd","ObservedStreamList::len/drain"],
 hook="cfg(wruster_verif) re-export of the stream wrappers")
p("C21","wrusdummy answers each configured route with the configured response",
 "For any configuration file with distinct routes, the program answers a request to each configured path and method with exactly the configured status, media type and content (and its length), a path below a configured one likewise, and everything else with 404. A file that is missing, is not valid YAML of that shape, or names an unknown method or malformed media type makes it exit with an error instead of serving.",
 ["configurations","inputs"],"all configuration files of the documented schema and single-fault mutations of them",
 "wrusdummy has no tests.",
 ["wrusdummy/src/main.rs"],
 [("configuration reading","wrusdummy/src/main.rs config::Routes"),("response building","wrusdummy/src/main.rs serve_route")],
 observe=["the wrusdummy process over HTTP"])
p("C22","Logging middleware changes nothing but the log",
 "Wrapping any handler, any number of times, in the logging middleware leaves every observable unchanged: the wrapped handler is called exactly once with the same request, including an unconsumed body, and its response, including an unconsumed body, is returned unaltered. One line is logged for the request and one for the response, at info level.",
 ["inputs","programs"],"all handlers, requests and responses, and nesting depths, with logging enabled",
 "The only test is a compile-only example.",
 ["wruster_handlers/src/lib.rs",W+"http/mod.rs"],
 [("middleware","wruster_handlers/src/lib.rs log_middleware"),("Debug of messages",W+"http/mod.rs impl Debug for Body")],
 observe=["log_middleware","a capturing logger"])
p("C23","Key and certificate files load exactly or are refused, never a panic",
 "Reading a certificate file that contains at least one PEM certificate, among any other text and PEM sections, returns the first certificate's exact bytes, and reading a key file that contains at least one private key (PKCS#8, RSA or EC) succeeds with the first private key. A missing file, a file without such a section, or a malformed section is an error; no content causes a panic.",
 ["inputs"],"all PEM files built from sections, comments and line-ending styles, plus arbitrary bytes and single-byte corruptions",
 "Tests load one valid certificate and one valid key.",
 [W+"streams/tls/mod.rs"],
 [("certificate loading",W+"streams/tls/mod.rs Certificate::read_from"),("key loading",W+"streams/tls/mod.rs PrivateKey::read_from")],
 observe=["Certificate::read_from, Vec<u8>::from(&Certificate)","PrivateKey::read_from, run_tls"])
p("C24","Simultaneous connections never see each other's data",
 "For any number of simultaneous connections and any interleaving of their bytes, each connection receives exactly the responses to its own requests, every handler call gets the body of its own request, and each request is handled exactly once. A connection that is slow, stalled or being reset never delays or alters another's responses while places are free.",
 ["schedules","histories"],"all interleavings of sends and receives over many connections, with slow handlers and stalled clients among them",
 "No test has two connections open at once.",
 [W+"lib.rs",W+"thread_pool/mod.rs",W+"streams/cancellable_stream.rs"],
 [("thread per connection",W+"lib.rs accept_connections, handle_conversation"),("per-connection poller",W+"streams/cancellable_stream.rs")],
 observe=["client sockets of a running Server","handler call log"])
p("C25","Bodies are streamed: in bounded memory, and as they arrive",
 "Sending or receiving a message, by the server, a handler, the static handler, the log middleware or the client, takes an amount of memory (16 MiB at most) that does not grow with the size of its body, and every byte of a body of any size, beyond 4 GiB too, arrives unaltered. A handler can read the part of a body that has arrived before the rest is sent.",
 ["inputs","configurations"],"all body sizes, sizes of reads, ways to consume a body, plain or TLS, with and without the middleware",
 "Tests use bodies of a few bytes and do not measure memory.",
 [W+"http/mod.rs",W+"lib.rs",W+"http/client/mod.rs","wruster_handlers/src/lib.rs"],
 [("writing and reading bodies",W+"http/mod.rs Body::write, Body::read_from, Read for Body"),("bodies of the requests of a conversation",W+"lib.rs handle_connection, RequestReader"),("files","wruster_handlers/src/lib.rs serve_static")],
 observe=["the allocations of the process (a counting allocator)","the bytes at both ends of real connections"])
p("C26","The programs serve what their command line says, or end with an error",
 "wrustatic serves its directory in the clear when it is given neither a key nor a certificate; given both, in any position and spelling of the options, it serves over TLS only, showing exactly the first certificate of the file. With only one of them, a file that is missing or has no key or certificate, missing or surplus arguments, or an address that is malformed or taken, it ends with an error status, without panicking and without ever serving; likewise wrusdummy for its arguments and address. Key material that cannot be used never leads to serving in the clear. How much is logged changes nothing.",
 ["configurations","inputs"],"all command lines, key and certificate files, addresses and log levels",
 "The programs have no tests.",
 ["wrustatic/src/main.rs","wrusdummy/src/main.rs",W+"lib.rs",W+"streams/tls/mod.rs"],
 [("command line","wrustatic/src/main.rs Cli, main"),("command line","wrusdummy/src/main.rs main"),("starting a server",W+"lib.rs Server::run, run_tls")],
 observe=["the programs' exit status and what they answer over plain and TLS connections"])
p("C27","A server that misbehaves never harms the client",
 "Whatever a server does with a connection of the client - sends arbitrary bytes, a malformed or endless header block, an absurd length, a response cut anywhere, too much or nothing, closes, half-closes or resets the connection, stalls, drips or takes nothing of the request - the request, reading its body and dropping the response end in a response or an error within the client's limits (60 s for reading a response, 60 s for writing a request, not earlier for a server that is slow but in time), without panicking. A response that is malformed or cut in its header block is an error; bytes of a body are those that were sent. A connection on which something went wrong is never used for another request. Meanwhile (also while a connection to a server that does not accept it is being made) and afterwards requests of the same client, from any thread, to the same and other servers that behave succeed as if nothing had happened.",
 ["inputs","histories","schedules","fault_sequences"],"all behaviours of servers, and all histories of requests from any number of threads sharing a client",
 "The tests use a server that behaves.",
 [W+"http/client/mod.rs",W+"http/client/connection_pool.rs",W+"http/mod.rs",W+"streams/timeout_stream.rs"],
 [("making a request",W+"http/client/mod.rs Client::run"),("giving a connection back",W+"http/client/mod.rs ClientResponse::drop, CountedContent"),("reading a response",W+"http/mod.rs Response::read_versioned_from"),("limits",W+"streams/timeout_stream.rs")],
 observe=["results of Client::run and of reading bodies, and the time they take","the requests that scripted servers receive, per connection"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
