#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source of truth for both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HTTP = "include/crab/http/"
NET = ["include/crab/network.hpp", "include/crab/network.hxx", "include/crab/network_posix.hxx"]
P = []
def prop(id, title, statement, over, text, why, files, mech, note, technique, level="exploration", state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, technique=technique, level=level, state=state))

prop("C01", "Parsing does not depend on how the bytes were split",
  "For every byte sequence, feeding it to the HTTP request head, response head, body, chunked body, WebSocket frame head, URI, query string and cookie parsers in any sequence of pieces, through either the pointer or the stream-buffer interface, gives the same result as feeding it at once. Same means: same parsed value, same verdict (complete, rejected, waiting), and the same number of bytes consumed, so that bytes after the end of a message are never eaten.",
  ["inputs", "histories"], "every byte string (legal, mutated, random) and every way of cutting it into reads, including cuts inside CRLF, chunk sizes and percent escapes",
  "A unit test feeds one string in one or two ways; the number of splits is exponential and the state machine has a state per byte.",
  [HTTP+"request_parser.hxx", HTTP+"response_parser.hxx", HTTP+"query_parser.hxx", HTTP+"web_message_parser.hxx"],
  [("incremental head parsing", HTTP+"request_parser.hxx: RequestParser::consume / parse"), ("body parsing", HTTP+"request_parser.hxx: BodyParser::consume"), ("response head", HTTP+"response_parser.hxx")],
  "Random and coverage-guided search; bytes up to a few KB per case.", "metamorphic PBT (split vs whole) + libFuzzer")
prop("C02", "Legal HTTP/1.x heads are decoded exactly",
  "Every legal HTTP/1.0 or 1.1 request or response head within the size limit, in any of the tolerated spellings (header case, optional blanks, LF instead of CRLF, leading empty lines), is accepted and decoded to exactly the method, path, query, version, status, keep-alive decision, content length, transfer codings, host, content type, upgrade/WebSocket fields, authorization and remaining headers it was written from. Nothing is lost, invented, reordered or attributed to another field.",
  ["inputs"], "every abstract head and every tolerated rendering of it",
  "Headers combine freely (order, repetition, blanks, case); tests sample a handful of messages.",
  [HTTP+"request_parser.hxx", HTTP+"response_parser.hxx", HTTP+"types.hpp"],
  [("request head", HTTP+"request_parser.hxx: RequestParser::parse, process_ready_header"), ("response head", HTTP+"response_parser.hxx: ResponseParser::parse, process_ready_header")],
  "Heads are generated from an abstract model, rendered, parsed and compared with the model; obsolete line folding included for plain headers.", "model-based PBT (render abstract head, parse, compare)")
prop("C03", "Malformed or oversized HTTP heads are refused",
  "A request or response head with a defect that makes its meaning ambiguous or unsafe (repeated or non-numeric or overflowing content length, chunked not the last coding, control bytes in any element, bare CR, missing colon, blank or separator in a header name, bad version, bad percent escape, bad status code, incomplete start line, more bytes than the configured head limit) is always refused. The parser never reports such a head as complete, wherever the defect is and however the bytes arrive.",
  ["inputs"], "every legal head with one defect of each class placed anywhere, in every split",
  "Request-smuggling bugs hide in combinations of otherwise legal parts; tests have one message per defect at best.",
  [HTTP+"request_parser.hxx", HTTP+"response_parser.hxx"],
  [("header checks", HTTP+"request_parser.hxx: RequestParser::process_ready_header"), ("head limit", HTTP+"request_parser.hxx: max_total_length")],
  "Sixteen defect classes injected in generated legal heads.", "mutation PBT with defect oracle + libFuzzer")
prop("C04", "Serialised HTTP heads parse back to the same message",
  "Writing a request or response head and parsing the bytes with the library's own parser gives back the same message: every field that is set appears exactly once with the same meaning and no byte is left over. Setting a URI on a request and reading it back gives the same path and query.",
  ["inputs"], "every request and response head whose fields are legal header content",
  "The serialiser and the parser are maintained separately; only generated field combinations exercise all conditional branches of both.",
  [HTTP+"types.hxx", HTTP+"types.hpp", HTTP+"request_parser.hxx", HTTP+"response_parser.hxx"],
  [("serialisers", HTTP+"types.hxx: RequestHeader::to_string, ResponseHeader::to_string"), ("uri", HTTP+"types.hxx: RequestHeader::set_uri, get_uri")],
  "Round trip through both serialiser and parser.", "round-trip PBT")
prop("C05", "HTTP body framing delivers exactly the body",
  "For every body, in content-length, chunked (with any chunk sizes, extensions and trailers) or until-close framing, the parser delivers exactly the original bytes in order, declares completion exactly at the framing's end, and leaves the following bytes untouched. Chunk-size lines that are malformed or overflow are refused, never wrapped around or truncated.",
  ["inputs"], "every body, chunking, extension, trailer and split, plus malformed chunk lines",
  "Length arithmetic and boundary bugs show only for particular chunk and read boundaries.",
  [HTTP+"request_parser.hxx", HTTP+"request_parser.hpp"],
  [("body state machine", HTTP+"request_parser.hxx: BodyParser")],
  "Bodies up to a few KB, chunk sizes to 2^64.", "model-based PBT (encode body, parse, compare)")
prop("C06", "WebSocket framing: headers, lengths and masking are lossless",
  "Every frame header the library can produce (opcode, fin flag, payload length from 0 to 2^63-1, mask or none) is written in the shortest legal form and parsed back to the same values in any split. Masking in pieces of any size and offset equals XOR with the repeating key, applying it twice restores the payload, and frames that RFC 6455 forbids (reserved bits, unknown opcode, control frame fragmented or longer than 125) are refused.",
  ["inputs"], "all opcodes, flags, lengths around every encoding boundary, masks, splits and single-defect headers",
  "Boundary lengths 125/126/65535/65536, piecewise masking offsets and reserved bits form a product no fixed list covers.",
  [HTTP+"web_message_parser.hxx", HTTP+"web_message_parser.hpp"],
  [("header writer", HTTP+"web_message_parser.hxx: WebMessageHeaderSaver"), ("header parser", HTTP+"web_message_parser.hxx: WebMessageHeaderParser"), ("masking", HTTP+"web_message_parser.hxx: mask_data")],
  "Independent RFC 6455 encoder/decoder as the oracle; payload sizes to 100 KB for body parsing.", "model-based PBT against an independent RFC 6455 codec")
prop("C07", "Query strings, forms and cookies decode to what was encoded",
  "For every list of keys and values of arbitrary bytes, percent-encoding them as a query string (or form body) and parsing gives back the same pairs, the last value winning for a repeated key. Malformed percent escapes never swallow or change a neighbouring separator, pair or byte, and cookie strings give each cookie's exact name and value.",
  ["inputs"], "every list of key/value byte strings, every mix of escaped and raw spelling, malformed escapes at every position",
  "The decoder is a byte-level state machine; a mistake shows only for particular byte pairs after a percent sign.",
  [HTTP+"query_parser.hxx", HTTP+"query_parser.hpp", HTTP+"types.hxx"],
  [("query decoder", HTTP+"query_parser.hxx: QueryParser"), ("cookies", HTTP+"query_parser.hxx: CookieParser"), ("escape", HTTP+"types.hxx: urlencode/urldecode")],
  "Reference decoder written from the documentation.", "round-trip and differential PBT against a reference decoder")
prop("C08", "URIs parse and normalise per the generic syntax",
  "Every absolute URI built from a scheme, credentials, host, port, path segments and query is parsed into exactly these components. Dot segments are removed as RFC 3986 prescribes, so the resulting path never contains an unresolved '..' and never climbs above the root. Texts with a malformed scheme or a second '@' are refused.",
  ["inputs"], "every combination of components, dot segments, percent-encoded dots and letters",
  "Path traversal defects appear for particular segment sequences (trailing '..', encoded dots, repeated slashes).",
  [HTTP+"query_parser.hxx", HTTP+"query_parser.hpp"],
  [("uri state machine", HTTP+"query_parser.hxx: URIParser")],
  "Reference normaliser (RFC 3986 5.2.4).", "differential PBT against a reference normaliser")
prop("C09", "Integer parsing and conversion never wrap or truncate",
  "Converting text to any integer type accepts exactly the texts that denote a value of that type and returns that value; converting between integer or floating types and checked arithmetic return the mathematically exact result or report overflow. No input gives a silently wrapped, truncated or undefined result.",
  ["inputs"], "all integer widths and signs, values at and around every limit, decorated and malformed texts, all floating-point classes",
  "Overflow logic has a case per pair of types and sign; existing tests sample a few texts.",
  ["include/crab/integer_cast.hpp"],
  [("text to integer", "include/crab/integer_cast.hpp: integer_cast / integer_parse"), ("safe arithmetic", "include/crab/integer_cast.hpp")],
  "128-bit arithmetic and bignum-style text reference; 8/16-bit pairs enumerated.", "differential PBT against 128-bit arithmetic")
prop("C10", "Digests equal the standard functions for any update pattern",
  "MD5, SHA-1, CRC-32 and CRC-32C of every byte sequence equal the published functions, however the data is split into updates and whatever its alignment in memory. Finishing and reusing a digest object never changes another object's result.",
  ["inputs", "histories"], "every message length around block boundaries, every split, every alignment",
  "The block buffer logic depends on length mod 64 and on each piece's length; tests use a handful of strings.",
  ["include/crab/crypto/md5.hxx", "include/crab/crypto/sha1.hxx", "include/crab/crypto/crc32.hxx"],
  [("md5", "include/crab/crypto/md5.hxx"), ("sha1", "include/crab/crypto/sha1.hxx"), ("crc32", "include/crab/crypto/crc32.hxx")],
  "Independent bitwise reference implementations; lengths to 70 KB quick, past 512 MB in thorough.", "differential PBT against independent reference implementations")
prop("C11", "Base64, hex and UTF-8 codecs are exact",
  "Base64 and hex encoding followed by decoding give back every byte string, encodings equal the standard ones, and every text with a character outside the alphabet, padding other than at the end of a group of four (concatenated encodings decode to the concatenation) or an impossible length is refused. The UTF-8 check accepts exactly the well-formed sequences.",
  ["inputs"], "all byte strings up to 2-3 bytes exhaustively, longer ones at random; valid and mutated texts",
  "Padding and boundary classes (surrogates, overlong forms, non-canonical trailing bits) form many cases.",
  ["include/crab/crypto/base64.hxx", "include/crab/util.hxx", "include/crab/util.hpp"],
  [("base64", "include/crab/crypto/base64.hxx"), ("hex", "include/crab/util.hxx")],
  "Exhaustive for short inputs.", "exhaustive small inputs + differential PBT")
prop("C12", "The circular buffer is a bounded FIFO of bytes",
  "Whatever sequence of writes, reads, partial commits, clears and transfers is applied, the circular buffer returns exactly the written bytes in order, never more than its capacity, and its reported size and free space always agree with a plain FIFO. The readable and writable windows it exposes always describe exactly the stored bytes and the free space.",
  ["histories"], "every operation sequence and capacity, especially wrap-around positions",
  "Defects need a particular read/write position reached by a history of operations.",
  ["include/crab/streams.hpp", "include/crab/streams.hxx"],
  [("ring arithmetic", "include/crab/streams.hpp: Buffer"), ("transfers", "include/crab/streams.hxx: Buffer::write_to, read_from")],
  "Stateful comparison with std::deque.", "stateful model-based PBT")
prop("C13", "Stream transfers conserve bytes",
  "Moving data between any of the input and output streams, with destinations that accept any number of bytes per call, transfers every byte exactly once and in order, and the source's remaining size always equals what was not yet accepted. Reading exactly N bytes either gives N bytes or reports failure.",
  ["histories", "fault_sequences"], "every composition of streams, limits, and sequence of partial transfers",
  "Loss or duplication appears only when the destination accepts part of a piece.",
  ["include/crab/streams.hpp", "include/crab/streams.hxx"],
  [("stream transfers", "include/crab/streams.hxx: IMemoryStream, CombinedIStream, StringStream, VectorStream")],
  "Composite streams to depth 4.", "stateful model-based PBT with partial-transfer faults")
prop("C14", "The intrusive heap and list keep order and membership",
  "After any sequence of insertions, removals (of any element, from any position) and updates, the heap reports exactly the present elements, always with the extreme element (by its ordering predicate) first, and the list visits exactly the present elements in insertion order. An element can be removed at any moment and destroyed afterwards without affecting the others.",
  ["histories"], "every sequence of insert, erase, pop, move and destroy",
  "Sift-up/sift-down mistakes break order only for particular shapes.",
  ["include/crab/intrusive_heap.hpp", "include/crab/intrusive_list.hpp"],
  [("heap", "include/crab/intrusive_heap.hpp: IntrusiveHeap"), ("list", "include/crab/intrusive_list.hpp: IntrusiveList")],
  "Up to 200 operations per history against a multiset/list model.", "stateful model-based PBT")
prop("C15", "The random generator is reproducible and stays in range",
  "For a given seed the generator yields the published PCG32 sequence whichever mix of calls is used, byte output is independent of how it is requested up to word boundaries, and distributions never leave their stated range.",
  ["inputs", "histories"], "every seed and call sequence",
  "A reproducible stream can be checked only against an independent generator over many seeds.",
  ["include/crab/util.hpp", "include/crab/util.hxx"],
  [("generator", "include/crab/util.hpp: Random")],
  "Independent PCG32.", "differential PBT against an independent PCG32")
prop("C16", "Timers fire once, in order and never early",
  "Whatever timers are armed, re-armed, cancelled, moved or destroyed, from outside or inside handlers, each armed timer's handler runs exactly once, not before its time, in order of expiry (a timer postponed while armed may come later than that when the loop is late), and never after cancel or destruction. The loop never goes to sleep past the next expiry and never blocks when a timer is due.",
  ["histories", "schedules"], "every history of timer operations under an arbitrary virtual clock",
  "Real clocks make order and lateness untestable; the interesting operations are those made inside handlers.",
  NET + ["include/crab/network_base.hpp", "include/crab/intrusive_heap.hpp"],
  [("timer queue", "include/crab/network.hxx: RunLoop::process_timers / Timer")],
  "Virtual clock through link-time interposition of the clock and epoll; stateful model.", "stateful model-based PBT on a simulated clock")
prop("C17", "The run loop: cancellation, idle handlers and fairness",
  "A cancelled loop returns without running further handlers and can be run again; nested or repeated runs behave the same. Idle handlers run in turn while active and never after being switched off. A handler that keeps re-arming itself (zero-delay timer, active idle, watcher calling itself, socket with more data) never starves due timers, readable sockets or called watchers.",
  ["histories", "schedules"], "every mix of idle, timer and I/O handlers with cancels at any point",
  "Starvation and late callbacks need several sources ready at the same moment in a particular order.",
  NET, [("run loop", "include/crab/network_posix.hxx: RunLoop::run, step"), ("idle", "include/crab/network.hxx: Idle")],
  "Simulated kernel.", "stateful PBT on a simulated kernel")
prop("C18", "TCP connections carry the byte stream intact",
  "Bytes written to a connection arrive at the peer complete, in order and once, whatever the sizes of reads and writes the operating system allows, and reading returns data until the peer's orderly end is reached. After a partial write or an empty read the handler is invoked when progress becomes possible again, so no transfer stalls while both sides are willing.",
  ["schedules", "fault_sequences", "histories"], "every schedule of short reads and writes, would-block results, spurious wake-ups and peer pauses",
  "Short writes and lost readiness edges do not occur on an idle loopback connection.",
  NET, [("socket I/O", "include/crab/network_posix.hxx: TCPSocket::read_some, write_some"), ("buffering", "include/crab/network.hxx: BufferedTCPSocket")],
  "Simulated edge-triggered kernel with fault injection.", "stateful PBT with fault injection on a simulated kernel")
prop("C19", "No handler runs after cancel, close or destruction",
  "Once a timer, socket, acceptor, idle handler or HTTP connection has been cancelled, closed or destroyed (also from inside its own or another object's handler, and while its event is already queued), its handler is not called again until it is re-armed. No such sequence touches freed memory or leaks a descriptor.",
  ["histories", "schedules"], "every history of close/destroy actions performed inside handlers while several events are ready",
  "Needs several simultaneously ready events and destruction from a neighbouring handler.",
  NET + ["include/crab/network_base.hpp"], [("pending event list", "include/crab/network.hxx: Callable::cancel_callable"), ("dispatch", "include/crab/network_posix.hxx: RunLoop::step")],
  "Simulated kernel under AddressSanitizer.", "stateful PBT on a simulated kernel under ASan")
prop("C20", "Cross-thread calls are never lost and run in the loop's thread",
  "After any thread calls a watcher, its handler runs in the owner's loop thread at least once after the call and never after cancellation or destruction; calls from many threads are free of data races. A worker thread wrapper can be cancelled, joined and destroyed at any time.",
  ["schedules"], "every interleaving of calls, cancels, handler runs and loop exits from several threads",
  "Lost wake-ups depend on the interleaving.",
  NET, [("watcher", "include/crab/network_posix.hxx: Watcher::call, RunLoop::trigger_called_watchers"), ("wake-up", "include/crab/network_posix.hxx: RunLoop::wakeup")],
  "Real threads under a controlled scheduler; the same schedules run under AddressSanitizer and under ThreadSanitizer.", "stateful PBT over generated thread schedules (controlled scheduler), ASan and TSan")
prop("C21", "DNS requests answer exactly once or not at all after cancel",
  "Every name resolution gives exactly one answer to its handler, in the loop's thread, with the addresses the system resolver returned, or none if it was cancelled or destroyed before. Resolutions may be issued, cancelled and destroyed in any order, also with resolver delays and failures.",
  ["schedules", "histories", "fault_sequences"], "every order of resolve, cancel, destroy and resolver completion",
  "The race between resolver completion and cancellation cannot be hit deliberately by a test.",
  NET, [("resolver thread", "include/crab/network_posix.hxx / network.hxx: DNSWorker, DNSResolver")],
  "Real threads under a controlled scheduler; getaddrinfo replaced by a generated resolver.", "stateful PBT over generated thread schedules with a simulated resolver, ASan and TSan")
prop("C22", "UDP datagrams keep their boundaries",
  "Each datagram sent is delivered as one datagram with the same bytes and the sender's address, never merged, split or repeated by the library; after a would-block on either side the handler is invoked when progress becomes possible again.",
  ["schedules", "fault_sequences", "inputs"], "every sequence of sizes, would-block results, truncated and empty datagrams",
  "Empty datagrams and would-block at the edge are rare on loopback.",
  NET, [("udp", "include/crab/network_posix.hxx: UDPTransmitter, UDPReceiver")],
  "Simulated kernel.", "stateful PBT with fault injection on a simulated kernel")
prop("C23", "Network addresses parse and print consistently",
  "Every IPv4 and IPv6 address with every port is accepted in each of its textual forms, prints back to a text that parses to an equal address, and keeps family, bytes and port. Texts that are not addresses are refused without an exception from the non-throwing interface.",
  ["inputs"], "every address, port and textual form; malformed texts",
  "Textual forms of IPv6 and port limits form a large space.",
  ["include/crab/network_posix.hxx", "include/crab/network_base.hpp", "include/crab/network_posix_win.hxx"],
  [("address", "include/crab/network_posix_win.hxx: Address")],
  "Independent formatter and inet_pton as references.", "round-trip and differential PBT")
prop("C24", "The HTTP server answers each request once, in order",
  "For every sequence of requests on a connection, pipelined and split arbitrarily, with immediate or delayed handlers, the peer receives exactly one well-formed response per request, in request order, until the connection is to be closed by either side's keep-alive rules. After a response that ends keep-alive all its bytes are delivered before the connection closes, and no later request is processed. The date header it adds is the current UTC time in the standard form.",
  ["histories", "schedules", "inputs"], "every request sequence, split, response delay and short-write schedule",
  "Pipelining and delayed responses interact with buffering only under particular arrival patterns.",
  [HTTP+"server.hxx", HTTP+"server.hpp", HTTP+"connection.hxx"],
  [("server connection", HTTP+"connection.hxx: ServerConnection"), ("dispatch", HTTP+"server.hxx: Server::on_client_handler")],
  "Raw-byte peer in the simulated network parses responses with an independent parser.", "stateful model-based PBT on a simulated network")
prop("C25", "HTTP client and server exchange messages unchanged",
  "A request sent with the library's client reaches the library's server with the same method, URI, headers and body, and the response reaches the client with the same status, headers and body, for every body size and framing and every network schedule. Consecutive exchanges on a kept-alive connection do not influence each other.",
  ["histories", "schedules"], "every sequence of exchanges and schedule of partial transfers",
  "End-to-end exchange depends on both state machines and the transport; no network test exists.",
  [HTTP+"connection.hxx", HTTP+"server.hxx", HTTP+"client_request.hxx"],
  [("client connection", HTTP+"connection.hxx: ClientConnection"), ("server", HTTP+"server.hxx")],
  "Simulated network.", "end-to-end PBT on a simulated network")
prop("C26", "WebSocket messages arrive whole, in order, unchanged",
  "After the upgrade handshake, every text and binary message sent by either side is delivered to the other side exactly once, in order, with the same type and bytes, whatever its size, fragmentation, interleaved control frames and network schedule. Pings are answered with the same payload and a close handshake delivers everything sent before it.",
  ["histories", "schedules", "inputs"], "every message sequence, fragmentation, interleaving and split",
  "Fragment reassembly and control-frame interleaving depend on order and split.",
  [HTTP+"connection.hxx", HTTP+"web_message_parser.hxx", HTTP+"server.hxx"],
  [("websocket", HTTP+"connection.hxx: advance_state, write(WebMessage)")],
  "Library to library and raw peer to library, simulated network.", "stateful model-based PBT on a simulated network")
prop("C27", "WebSocket protocol violations end the connection",
  "When a peer breaks the WebSocket protocol (unmasked client frame or masked server frame, reserved bits or opcodes, bad fragmentation order, invalid or oversize control frame, non-canonical length, invalid UTF-8 text), the connection is closed and the offending message is not delivered, while everything before it is. The handshake response is computed correctly for every key and a bad handshake never yields an open WebSocket.",
  ["inputs", "histories"], "every legal frame prefix followed by each class of violation; every handshake key and defect",
  "Violations matter only in particular states (mid-fragment, after close).",
  [HTTP+"connection.hxx", HTTP+"web_message_parser.hxx"],
  [("protocol checks", HTTP+"connection.hxx / web_message_parser.hxx")],
  "Raw peer in the simulated network.", "mutation PBT on a simulated network")
prop("C28", "Hostile or broken peers cannot harm the server or others",
  "Whatever bytes, in whatever pieces, a peer sends, and whenever it disconnects or the operating system reports an error, the server neither crashes, throws out of its loop, leaks, spins nor disturbs other connections: they still get their own complete answers.",
  ["inputs", "fault_sequences", "schedules"], "arbitrary byte streams and faults on some connections while others run legal exchanges",
  "Robustness is a statement about all inputs.",
  [HTTP+"server.hxx", HTTP+"connection.hxx"] + NET,
  [("server", HTTP+"server.hxx: Server")],
  "Simulated network with fault injection, ASan+UBSan.", "fuzzing with fault injection on a simulated network")
prop("C29", "Streamed bodies are delivered completely and back-pressured",
  "A response body or WebSocket message written in pieces by a stream handler reaches the peer complete, once, in order and framed correctly for both known and unknown length, whatever pieces the handler writes and the network accepts; the reported body position always equals the bytes written. The handler is called again whenever the socket accepts more data, so a handler that writes only while the socket accepts data finishes its body without unbounded buffering, and it is told once if the connection is lost. While a WebSocket message is being streamed, messages from the peer wait.",
  ["histories", "schedules"], "every piece pattern, length declaration and network schedule",
  "Back-pressure states appear only if the network refuses bytes at particular points.",
  [HTTP+"server.hxx", HTTP+"server.hpp", HTTP+"connection.hxx"],
  [("streaming", HTTP+"server.hxx: Client::start_write_stream, write"), ("write side", HTTP+"connection.hxx: ServerConnection::write, write_last_chunk, BufferedTCPSocket")],
  "Simulated network.", "stateful PBT on a simulated network")
prop("C30", "Each lost connection is reported once and frees its place",
  "Each connection that ends while the application still cares about it is reported by exactly one disconnect notification, and none is reported twice or after the application dropped it. Ended connections free their place, so the server keeps accepting up to its configured limit and resumes after descriptor exhaustion.",
  ["histories", "fault_sequences"], "every order of connects, disconnects (orderly, reset, by server) and accept failures",
  "Slot accounting errors need a history of connects and losses.",
  [HTTP+"server.hxx", HTTP+"connection.hxx"] + NET,
  [("client bookkeeping", HTTP+"server.hxx: Server::on_client_disconnected"), ("accept", "include/crab/network_posix.hxx: TCPAcceptor")],
  "Simulated network.", "stateful PBT with fault injection on a simulated network")
prop("C31", "The stand-ins for standard types behave like the standard ones",
  "In builds before C++17 crab::optional and crab::string_view give the same results as std::optional and std::string_view for every sequence of the operations they offer (values held, presence, sizes, bytes, equality, exceptions), so that a program means the same in either build. scope_exit runs its handler exactly once, when its scope is left in whatever way; byte helpers (append, memzero, rol, uint8_cast) do exactly what they are defined to for every size and shift.",
  ["histories", "inputs"], "every sequence of operations on optionals and views of arbitrary values, every nesting of scopes, every size and shift",
  "These types carry most parsing results; their mistakes depend on the state left by earlier operations (moved-from, reset, cut views).",
  ["include/crab/util.hpp", "include/crab/util.hxx"],
  [("optional", "include/crab/util.hpp: class optional"), ("string_view", "include/crab/util.hpp: class string_view"), ("scope_exit", "include/crab/util.hpp: class scope_exit"), ("bytes", "include/crab/util.hpp: append, rol, uint8_cast; util.hxx: memzero")],
  "Built as C++14, where the stand-ins are used. optional is documented for value types only, so the lifetime of the value after reset() is not judged; string_view::compare() is judged for equality only.", "model-based PBT + libFuzzer")
prop("C32", "Signals become loop events, each one noticed, none misdelivered",
  "While a Signal object exists, each of its signals raised to its thread (SIGINT and SIGTERM if none are named) makes its current handler run in the loop at least once afterwards, at most once per raise, never without a raise, and does not reach the ordinary disposition; this also holds after the handler was replaced. Other signals are not affected, and after destruction the handler never runs and its signals take their ordinary way again.",
  ["histories"], "every order of raising, running the loop, replacing handlers, creating and destroying Signal objects, also from handlers",
  "Signals merge and stay pending; whether the second signal after some history is still noticed cannot be seen from one raise.",
  ["include/crab/network.hpp", "include/crab/network_posix.hxx"],
  [("signal watcher", "include/crab/network_posix.hxx: Signal::Signal, Signal::~Signal"), ("handler", "include/crab/network.hpp: Signal::set_handler")],
  "Real kernel signals raised by the process to itself; only the epoll implementation is built here.", "stateful PBT on the real kernel against a model of pending signals")
prop("C33", "A TLS client talks only to the authenticated server it named",
  "In builds with TLS, an https client (connection or request object) sends application data to and accepts answers from a server only if that server proves, by a certificate chain to a trusted authority that is valid now and meant for servers, that it is the host name or address the client asked for. With any other server, or if any byte of the stream is changed on the way, no byte of the request leaves the client in readable form, no forged, changed or truncated answer is delivered, and the application is told that the connection is lost. Right servers are told the name asked for, are always accepted, and the exchanges with them are delivered unchanged.",
  ["inputs", "histories", "fault_sequences"], "every host form, every kind of right and wrong certificate and chain, every change of the byte stream, every order of delivery and of ends of connection",
  "There are no tests of TLS at all (nor does the test build contain it); a missing check makes every exchange with a right server work as before.",
  [HTTP+"crab_tls.hpp", HTTP+"crab_tls.hxx", HTTP+"crab_tls_certificates.hxx", HTTP+"connection.hxx", HTTP+"client_request.hxx"],
  [("engine", HTTP+"crab_tls.hxx: TLSEngine::TLSEngine, read_from_socket, write_to_socket"), ("socket", HTTP+"crab_tls.hpp: TCPSocketTLS::connect_tls"), ("use", HTTP+"connection.hxx: ClientConnection::dns_handler")],
  "Library compiled with CRAB_TLS=1; the servers are OpenSSL objects in the harness with a public key infrastructure made at start; OpenSSL itself is trusted.", "stateful PBT with fault injection on a simulated network against OpenSSL servers")
prop("C34", "A TLS socket carries the byte stream intact and reports its end",
  "In builds with TLS, a TLS client socket is a stream of bytes in both directions: whatever the sizes of pieces, records and buffers and whichever side is slow, every byte is delivered once, in order and unchanged, and no side waits for ever while the other can go on. The end of the connection, by close_notify, FIN or reset, is reported exactly once, after all data the peer sent before an orderly end has been read; nothing is reported after close().",
  ["inputs", "histories", "fault_sequences"], "every sequence of writes, reads, pauses, key changes and ends on both sides, every cut of the encrypted stream",
  "Two layers of buffers (engine and socket) with edge-triggered events between them: losses and stalls need particular fill levels and orders of events.",
  [HTTP+"crab_tls.hpp", HTTP+"crab_tls.hxx"] + NET,
  [("engine", HTTP+"crab_tls.hxx: TLSEngine::read_from_socket, write_to_socket"), ("socket", HTTP+"crab_tls.hpp: TCPSocketTLS")],
  "Library compiled with CRAB_TLS=1; TLS 1.2 and 1.3; up to 200 KB per direction.", "stateful model-based PBT on a simulated network against OpenSSL servers")
prop("C35", "The loop's statistics equal what was really done",
  "The counters of a run loop (numbers of calls and bytes of TCP and UDP sends and receives, numbers of waits and of events) always equal the calls really made by sockets of the loop and what they moved; interrupted waits are not counted. Its records hold, in order and with the right time, the descriptor, the size asked for and the result of each such call, the events, and the records the application adds; beyond the maximum further records are ignored, clearing and printing empty them, and what is printed equals the records.",
  ["histories", "fault_sequences"], "every sequence of reads, writes, datagrams, waits, errors, user records, clears and prints",
  "Statistics are kept by hand beside each system call on every path; no test reads them.",
  ["include/crab/network_base.hpp", "include/crab/network.hxx", "include/crab/network_posix.hxx"],
  [("records", "include/crab/network.hxx: PerformanceStats::push_record, print_records"), ("calls", "include/crab/network_posix.hxx: TCPSocket::read_some, write_some, details::read_datagram, write_datagram, RunLoop::step")],
  "The simulated kernel reports each call; only the epoll implementation is built here.", "stateful PBT: differential against the simulated kernel's own account")

conf = json.load(open(os.path.join(V, "harness", "props.json")))["props"]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in P:
    if p["id"] in conf:
        cmd = "python3 check.py %s --tier " % p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough", "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --build", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the network harness replaces system calls at link time (-Wl,--wrap). See DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "claimed")
