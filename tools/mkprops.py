#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is easy to edit and diff)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

p("C01", "Request header blocks decode to exactly what the client encoded",
  "For every sequence of header blocks that a conforming HPACK encoder produces on one connection (any mix of indexed, "
  "incrementally indexed, non-indexed and never-indexed fields, Huffman or plain strings up to the 4096-octet string limit, "
  "and table size updates up to 65536), the server decodes each block to exactly the header list that was encoded: same names, "
  "values, order and duplicates. The result of a block depends on nothing but the blocks before it on the same connection.",
  ["inputs", "histories"], "every conforming encoding of every header list, after every history of earlier blocks on the connection",
  "The unit tests decode a few captured blocks; eviction, index arithmetic over the static/dynamic boundary and table resizes only go wrong for particular histories.",
  ["lib/hpack/header_block_decoder.cpp", "lib/hpack/dynamic_table.cpp", "lib/hpack/huffman_tree.cpp", "lib/hpack/int_decoder.cpp", "lib/hpack/header_static_table.h", "lib/hpack/huffman_codes.h"],
  [("HeaderBlockDecoder::decode", "lib/hpack/header_block_decoder.cpp"), ("DynamicTable", "lib/hpack/dynamic_table.cpp")],
  [("dynamic table", "entries a later block may refer to", "lib/hpack/dynamic_table.h")], ["return value of HeaderBlockDecoder::decode"])

p("C02", "Malformed header blocks are rejected, never misread",
  "A header block that is not valid HPACK (truncated anywhere inside a field, an index of zero or beyond the tables, an integer above 32 bits, "
  "a Huffman string with a truncated code, an EOS symbol or wrong padding, a table size update above 65536) or that holds a string longer than "
  "4096 octets is reported as an error: no header list is produced for it, nothing outside the block is read, and the process survives. "
  "This holds whatever blocks were decoded before it.",
  ["inputs", "histories", "fault_sequences"], "every malformed octet string offered as a header block, after every history of valid blocks",
  "Tests cover a handful of malformed blocks; truncation at every offset, overflow and padding corner cases are not sampled, and an out-of-bounds read may go unnoticed.",
  ["lib/hpack/header_block_decoder.cpp", "lib/hpack/int_decoder.cpp", "lib/hpack/byte_reader.cpp", "lib/hpack/huffman_tree.cpp"],
  [("error returns of every decoding step", "lib/hpack/header_block_decoder.cpp"), ("ByteReader bounds checks", "lib/hpack/byte_reader.cpp")],
  observe=["return value of HeaderBlockDecoder::decode", "process exit status under AddressSanitizer"])

p("C03", "Response header blocks decode at the client to the headers that were set",
  "Every header block the server emits, over the whole history of a connection and for arbitrary names and values, is decoded by a conforming "
  "HPACK decoder to exactly the header list of the response, in order. The decoder's dynamic table is limited to the size its client announced "
  "(4096 octets unless the client's SETTINGS say less), so the server never refers to an entry the client has evicted.",
  ["inputs", "histories", "configurations"], "every sequence of response header lists and of announced table sizes on one connection",
  "The encoder tests check a few blocks byte by byte; index growth past one octet and eviction disagreements need long histories of distinct headers.",
  ["lib/hpack/header_block_encoder.cpp", "lib/hpack/dynamic_table.cpp", "lib/hpack/int_encoder.cpp", "lib/hpack/bit_writer.h", "lib/http2_conn.cpp"],
  [("HeaderBlockEncoder::encode", "lib/hpack/header_block_encoder.cpp"), ("encoder dynamic table limited to the peer's size", "lib/http2_conn.h")],
  [("encoder dynamic table", "must mirror the client's", "lib/http2_conn.h")], ["octets returned by HeaderBlockEncoder::encode", "HEADERS frames on the wire"])

p("C04", "The header compression table is a size-bounded FIFO at all times",
  "After every sequence of insertions and size changes the table holds exactly the most recently inserted entries, newest first, that fit the "
  "current maximum size, where an entry counts its name length plus value length plus 32. An entry larger than the maximum empties the table; "
  "the reported size and count, lookup by position and lookup by name or by name and value (the newest match) always agree with that content.",
  ["inputs", "histories"], "every sequence of insert and resize operations with entries of every size",
  "Seven unit tests take a few steps each; off-by-one eviction, wrong accounting after a resize and stale lookups only show for particular orders.",
  ["lib/hpack/dynamic_table.cpp", "lib/hpack/dynamic_table.h"],
  [("DynamicTable::insert / set_max_table_size eviction loops", "lib/hpack/dynamic_table.cpp")],
  [("table_", "entries, newest first", "lib/hpack/dynamic_table.h"), ("table_size_", "sum of entry sizes", "lib/hpack/dynamic_table.h")],
  ["DynamicTable::count/size/get/find/find_name"])

p("C05", "HPACK integers are coded exactly for every value, prefix and truncation",
  "For every prefix length from 1 to 8 bits, every 32-bit value is encoded in the canonical RFC 7541 form and decodes back to itself, consuming "
  "exactly the octets of that form whatever the unused prefix bits and the following octets hold. Every truncated encoding and every encoding of a "
  "value above 32 bits yields an error and never a number.",
  ["inputs"], "every 32-bit value, every prefix length, every truncation point and every continuation octet sequence",
  "Tests check about a dozen values; boundaries at prefix limits, carry positions and the overflow edge are not covered.",
  ["lib/hpack/int_decoder.cpp", "lib/hpack/int_encoder.cpp", "lib/hpack/byte_reader.cpp"],
  [("IntegerDecoder::decode", "lib/hpack/int_decoder.cpp"), ("IntegerEncoder::encode", "lib/hpack/int_encoder.cpp")],
  observe=["return values of IntegerDecoder::decode and IntegerEncoder::encode"])

p("C06", "Huffman strings are lossless to code and strictly validated",
  "Every octet string survives Huffman encoding by the server and decoding by a conforming peer, and the reverse, octet for octet, for all 256 "
  "octet values. A Huffman string is accepted only if what follows its last complete code is fewer than eight bits, all of them ones; "
  "anything else (longer padding, zero bits, an EOS code) is rejected.",
  ["inputs"], "every octet string as plain text and every bit string as Huffman data",
  "One test encodes each code once and checks the number of symbols; wrong single codes, padding rules and non-ASCII octets are not checked.",
  ["lib/hpack/huffman_tree.cpp", "lib/hpack/huffman_codes.h", "lib/hpack/bit_writer.h", "lib/hpack/bit_reader.h", "lib/hpack/header_block_encoder.cpp"],
  [("HUFFMAN_CODES table", "lib/hpack/huffman_codes.h"), ("HuffmanTree::decode", "lib/hpack/huffman_tree.cpp")],
  observe=["string literals in encoded and decoded header blocks"])

p("C07", "Responses do not depend on how the byte streams are cut up",
  "For a given sequence of bytes sent by a client, the sequence of bytes the server sends back is the same however the input is split into reads "
  "and however the output is accepted (whole, in part, or not at all for a while). No byte of the response stream is ever lost, duplicated or reordered.",
  ["schedules", "inputs"], "every segmentation of the input and every pattern of partial and blocked writes",
  "Integration tests use a loopback socket that nearly always delivers whole messages; short reads and writes at particular offsets never occur.",
  ["lib/http2_conn.cpp", "lib/transports/tcp_transport.cpp", "lib/transports/tls_transport.cpp"],
  [("read buffer accumulation and frame extraction", "lib/http2_conn.cpp"), ("write buffer flushing", "lib/http2_conn.cpp")],
  [("read_buffer_", "received, not yet consumed", "lib/http2_conn.h"), ("write_buffer_", "produced, not yet sent", "lib/http2_conn.h")],
  ["bytes passed to the transport"])

p("C08", "Every request gets exactly one complete, well-formed response on its stream",
  "Each request header block received on an open connection is answered, in order of arrival, by exactly one response on the same stream: a header "
  "block with the handler's status first, then the handler's headers, a content-length equal to the body length when there is a body, and the server's own headers, "
  "followed by the handler's body octet for octet. END_STREAM is set on the last frame of the response and on no other, no frame exceeds 16384 octets, "
  "and frames of different responses are not interleaved.",
  ["inputs", "histories"], "every sequence of requests on a connection, every status, header list and body size",
  "Tests fetch a few fixed bodies; frame boundaries at exact multiples, empty bodies, long pipelines and large header lists are not covered.",
  ["lib/http2_conn.cpp", "lib/http2_frames.h", "lib/hpack/header_block_encoder.cpp"],
  [("HEADERS processing and response framing", "lib/http2_conn.cpp")], observe=["frames on the wire"])

p("C09", "Connections open with the preface and SETTINGS exchange, acknowledged once",
  "The server answers nothing and runs no handler before it has received the exact 24-octet client preface; a wrong preface ends the connection without a handler running. "
  "Its first frame is a non-ACK SETTINGS frame on stream 0 announcing MAX_CONCURRENT_STREAMS 100, INITIAL_WINDOW_SIZE 65535 and MAX_FRAME_SIZE 16384, sent once. "
  "Each valid client SETTINGS frame is acknowledged by exactly one empty SETTINGS ACK, in order with the responses, and an ACK is never acknowledged.",
  ["inputs", "histories", "schedules"], "every prefix of the preface, every corrupted octet in it, every interleaving of SETTINGS frames with requests",
  "Client libraries in the tests always open connections correctly and ignore surplus acknowledgements.",
  ["lib/http2_conn.cpp", "lib/http2_frame_reader.cpp"], [("read_preface", "lib/http2_conn.cpp"), ("write_settings / write_settings_ack", "lib/http2_conn.cpp")],
  [("state_", "handshake, preface, frames, closing", "lib/http2_conn.h")], ["frames on the wire", "handler invocations"])

p("C10", "A connection error is final: prior responses, GOAWAY, nothing after",
  "When a client sends a frame longer than 16384 octets, a SETTINGS frame whose length is not a multiple of six, a WINDOW_UPDATE that is not four octets, a HEADERS frame too short "
  "for its padding or priority fields, or an undecodable header block, the server still sends the responses to earlier requests, then attempts to send a GOAWAY frame with "
  "PROTOCOL_ERROR, and has the connection discarded. No later frame of that connection is acted on: no handler runs, nothing else is sent.",
  ["inputs", "histories", "fault_sequences"], "every malformed frame at every position of a connection's history",
  "No test sends malformed frames; the optional h2spec script is run by hand and its result ignored.",
  ["lib/http2_conn.cpp", "lib/http2_frame_reader.h", "lib/http2_frame_reader.cpp", "lib/http2_frames.h"],
  [("ProtocolError state and close()", "lib/http2_conn.cpp")], [("state_", "ProtocolError, Closing", "lib/http2_conn.h")], ["frames on the wire", "process() result", "handler invocations"])

p("C11", "Frames that carry no request do not disturb the requests around them",
  "PRIORITY, RST_STREAM, PING, PUSH_PROMISE, DATA, well-formed WINDOW_UPDATE, SETTINGS ACK and unknown frame types, of any length up to 16384, on any stream and with any flags, produce no output and "
  "no handler call and leave the meaning of every other frame unchanged. Padding and priority fields of a HEADERS frame, undefined flags and the reserved bit of a stream identifier do not "
  "change which request it carries or the response to it.",
  ["inputs", "histories"], "every sequence of such frames between and around every sequence of requests",
  "Tests use well-behaved clients which send few of these frames, and never padded ones.",
  ["lib/http2_conn.cpp", "lib/http2_frame_reader.h", "lib/http2_frames.h"], [("frame dispatch", "lib/http2_conn.cpp"), ("headers_block()", "lib/http2_frame_reader.h")],
  observe=["frames on the wire", "requests seen by handlers"])

p("C12", "A client that does not read cannot make the server buffer without bound",
  "While output of a connection is waiting to be sent, the server reads nothing more from that client and runs no handler for it, so at most the output of one received frame is pending at any time. "
  "Received but unprocessed input never exceeds 64 KiB, and processing resumes without loss as soon as the output has been accepted.",
  ["schedules", "inputs"], "every schedule of output stalls and resumptions under pipelined requests",
  "No test stalls a reader; unlimited buffering would pass every test.",
  ["lib/http2_conn.cpp"], [("flush before read", "lib/http2_conn.cpp"), ("MAX_READ_BUFFER_SIZE", "lib/http2_conn.cpp")],
  [("write_buffer_", "pending output", "lib/http2_conn.h"), ("read_buffer_", "pending input", "lib/http2_conn.h")], ["order of transport reads, writes and handler calls"])

p("C13", "Departure or failure of the peer at any point ends just that connection",
  "If the client closes, sends GOAWAY, or the transport reports a fatal error while shaking hands, reading or writing, at any point of the connection's history, the connection is reported for discarding and not "
  "kept waiting. Requests completely received before a GOAWAY are answered first; no handler runs for an incomplete frame or for anything after the GOAWAY, and the process survives.",
  ["crash_points", "fault_sequences", "schedules"], "every point of a connection's history at which the peer may vanish or the transport fail, including with output pending",
  "Tests end connections only when idle and after complete responses.",
  ["lib/http2_conn.cpp", "lib/transports/tcp_transport.cpp", "lib/transports/tls_transport.cpp"], [("ClientClosed state", "lib/http2_conn.cpp"), ("flush_write_buffer error branch", "lib/http2_conn.cpp")],
  observe=["process() result", "handler invocations"])

p("C14", "A failing or unroutable request is answered and harms nothing else",
  "A request whose handler throws anything is answered with status 500, one for which nothing matches with 404, and one that lacks a method or a path with 400 without running any handler; each of these responses is complete and well formed. "
  "The connection stays usable, later requests are answered as if the failing one had been any other, and the server keeps running.",
  ["inputs", "histories", "fault_sequences"], "every position of failing requests among others, every exception type",
  "Tests include no throwing handler and always send complete requests.",
  ["lib/http2_conn.cpp", "lib/router.cpp"], [("process_request", "lib/http2_conn.cpp")], observe=["frames on the wire", "handler invocations"])

p("C15", "Routing is deterministic: first exact match, then static, then 404",
  "A request is handled by the earliest registered route whose path and method both equal the request's exactly (including any query string); only if there is none, and the method is GET or HEAD, by the most recently registered static "
  "mapping whose URL prefix starts the path; otherwise the answer is 404. The handler that is returned stays valid and bound to that request's path and method however many other lookups or registrations follow.",
  ["inputs", "configurations", "histories"], "every set and order of registrations and every request path and method",
  "Tests register one or two routes and never overlap them with static mappings.",
  ["lib/router.cpp", "lib/static_file_handler.cpp"], [("Router::get_handler", "lib/router.cpp")], [("routes_, static_handlers_", "registrations in order", "lib/router.h")], ["response of the returned handler"])

p("C16", "Middleware wraps every request in registration order, exactly once",
  "For every request, whether served by a route, a static mapping or the 404 default, each registered middleware is entered once, in registration order with the first registered outermost, and left in the reverse order, seeing the request unchanged and the "
  "response as produced further in. A middleware that answers by itself or throws stops everything further in from running, and only that; middleware registered later applies to all later requests.",
  ["inputs", "configurations", "histories"], "every number and kind of middleware, every registration point, every request",
  "One test registers a few middlewares and makes one request.",
  ["lib/router.cpp"], [("Router::add_middleware", "lib/router.cpp")], [("middleware_chain_", "composed wrappers", "lib/router.h")], ["order of entries and exits around a handler"])

p("C17", "Static serving never leaves the configured directory",
  "Whatever the request path (dot segments, repeated slashes, absolute paths, odd bytes, names that resemble the root directory's) and whatever symbolic links the tree holds, the content or length of a file is sent only if the file's fully resolved location is inside the "
  "resolved root directory. A path that resolves outside it is answered 403 with no body, and never reveals whether the outside file exists.",
  ["inputs", "configurations"], "every request path over every directory tree with files, directories and symbolic links",
  "Tests try a few traversal strings on one fixed tree without symbolic links.",
  ["lib/file_reader.cpp", "lib/static_file_handler.cpp"], [("FileReader::sanitize_path", "lib/file_reader.cpp")], observe=["status and body of static responses"])

p("C18", "Static files are served exactly, with type, index page and HEAD parity",
  "A GET for a readable regular file under the root, with any query string ignored, is answered 200 with exactly the file's octets and the content type of its extension (application/octet-stream if unknown); an empty remainder or a single slash after the prefix means index.html. "
  "HEAD gives the same status and content type, a content-length equal to the file size, and no body; anything missing or not a regular file is 404, or 403 if the path cannot be followed at all (a name too long for the file system, a loop of links).",
  ["inputs", "configurations", "histories"], "every file content and size, every extension, every URL form, under changing files",
  "Tests fetch a few small text files.",
  ["lib/static_file_handler.cpp", "lib/file_reader.cpp"], [("StaticFileHandler::handle", "lib/static_file_handler.cpp"), ("FileReader::get_mime_type", "lib/file_reader.cpp")], observe=["status, headers and body of static responses"])

p("C19", "The access log holds exactly one faithful line per answered request",
  "With an access log configured, each answered request appends exactly one line, in the order of the responses, with the client address, the time of the answer with its offset from UTC, method, path, status sent, body length sent, referrer and user agent in Combined Log Format (a dash for each value that is absent). "
  "No request can add a line or shift a field: quotes, backslashes, control and non-ASCII octets in logged values appear only in escaped form; other characters appear as they are.",
  ["inputs", "histories"], "every sequence of requests with arbitrary octets in path, method, referrer and user agent",
  "No test in this build reads the access log.",
  ["lib/access_log.cpp", "lib/http2_conn.cpp", "lib/system_clock.cpp"], [("AccessLog::log_request", "lib/access_log.cpp")], observe=["lines written to the access logger"])

p("C20", "The status page's counters match the requests that were answered",
  "With statistics enabled, after any history of requests the total equals the number of requests that have reached the router, and the count for each status code equals the number of those that were answered with that code, including those answered 404 or failing with 500. "
  "The status page reports exactly these numbers, where the request for the page itself is counted in the total but not yet under its status code.",
  ["histories", "inputs"], "every history of requests over routes, static files, unknown paths and throwing handlers",
  "The page is only fetched once by a test and its numbers are not checked.",
  ["app/server_stats.cpp", "app/status_page.cpp"], [("ServerStats::middleware", "app/server_stats.cpp"), ("StatusPage::add_status_page", "app/status_page.cpp")], [("total_requests, status_codes", "counters", "app/server_stats.h")], ["body of /_ion/status"])

p("C21", "Command line options take effect exactly as documented",
  "The server started with any combination of options behaves as they say: a 404 from any source carries the custom 404 file as its body (headers only for HEAD) and other responses are untouched; test routes and the status page exist only when asked for; static mapping, cleartext mode and access log apply as given. "
  "Invalid options, unusable certificates or keys and ports that cannot be bound make it exit with a failure status instead of serving.",
  ["configurations", "inputs"], "every combination of options and every kind of request under it",
  "System tests that start the program are not part of this build and use three option sets.",
  ["app/main.cpp", "app/args.cpp", "app/test_routes.cpp", "app/status_page.cpp", "lib/server_config.cpp", "lib/transports/tls_context.cpp"], [("run_server", "app/main.cpp"), ("Args::register_opts", "app/args.cpp"), ("ServerConfiguration::validate", "lib/server_config.cpp")], observe=["responses and exit status of ion-server"])

p("C22", "At most 128 connections are served and freed places are reusable",
  "At any moment at most 128 client connections are being served; a client arriving when all places are taken is accepted and closed at once without being served and without effect on the others. "
  "As soon as any connection ends, for whatever reason, its place can be taken by a new client, for an unlimited number of times.",
  ["schedules", "histories"], "every order of arrivals and departures around the limit",
  "No test opens more than a few connections.",
  ["lib/http2_server.cpp"], [("handle_incoming_connection", "lib/http2_server.cpp")], [("connections_", "served connections by descriptor", "lib/http2_server.h")], ["accepted and closed descriptors, responses"])

p("C23", "Idle connections are closed after five seconds, active ones never",
  "A connection on which no byte has been received or sent for more than five seconds (counted from acceptance, from the end of the TLS handshake or from the last progress) is closed within one polling interval, in whatever phase it is, including a stalled handshake or a reader that accepts nothing. "
  "A connection with any progress within the last five seconds is not closed for idleness, and closing one never affects another.",
  ["schedules", "histories"], "every timing of activity on every number of connections",
  "Tests do not wait for timeouts.",
  ["lib/http2_conn.cpp", "lib/http2_server.cpp"], [("has_timed_out / update_last_activity", "lib/http2_conn.cpp"), ("reap_idle_connections", "lib/http2_server.cpp")], [("last_activity_", "time of last progress", "lib/http2_conn.h")], ["closing of descriptors against a virtual clock"])

p("C24", "Every accepted socket is closed exactly once and leaves no trace",
  "For every history of accepts, errors, hangups, timeouts and shutdown, each accepted descriptor is closed exactly once, is never read, written or polled after that, and everything is closed when the server returns. "
  "A new connection that is given the same descriptor number starts afresh: it is polled, gets its own responses only, and inherits nothing.",
  ["histories", "schedules", "fault_sequences"], "every interleaving of connection ends and arrivals with descriptor reuse",
  "Leaks and double closes are invisible to the functional tests.",
  ["lib/socket_fd.cpp", "lib/http2_server.cpp", "lib/pollers/epoll_poller.cpp", "lib/tcp_listener.cpp"], [("SocketFd ownership", "lib/socket_fd.cpp"), ("handle_connection_events", "lib/http2_server.cpp")], [("registered_fds_", "descriptors known to the poller", "lib/pollers/epoll_poller.h")], ["system calls"])

p("C25", "Connections are isolated from one another",
  "Whatever one client does (malformed data, stalling, aborting, TLS errors) and whatever accept() reports for a connection that failed before it was accepted or for a passing lack of resources, every other connection receives exactly the responses it would have received alone, and new clients can still connect.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of well-behaved and misbehaving clients and of transient accept failures",
  "Tests run one client at a time.",
  ["lib/http2_server.cpp", "lib/tcp_listener.cpp", "lib/http2_conn.cpp", "lib/transports/tls_transport.cpp"], [("per-connection state", "lib/http2_server.h"), ("TcpListener::try_accept", "lib/tcp_listener.cpp")], observe=["responses per connection"])

p("C26", "The server stops promptly when told to, and only then",
  "After stop() is called, or SIGINT or SIGTERM arrives, or the standard output pipe breaks, from any moment and under any load, the server returns from serving within a polling interval plus the work at hand, releases the port and all sockets, and the program exits with status 0. Nothing a client sends and no interrupted system call makes it stop otherwise.",
  ["schedules", "fault_sequences"], "every moment at which the request to stop may arrive, with any set of connections",
  "One test stops an idle server.",
  ["lib/http2_server.cpp", "app/signal_handler.cpp", "app/main.cpp", "lib/stop_reason.cpp"], [("user_req_termination_ checked every loop", "lib/http2_server.cpp"), ("SignalHandler", "app/signal_handler.cpp")], observe=["return of start(), exit status"])

p("C27", "Work that can proceed does proceed: no stalled responses or lost wakeups",
  "Whenever a client accepts bytes, pending output continues to be sent to it, and whenever a complete request has arrived and no output is pending, it is answered, within one round of event handling and with no further stimulus needed. "
  "The server asks to be told about writability exactly while output is blocked, so it neither stalls nor spins.",
  ["schedules", "histories"], "every interleaving of arrivals, blocked and unblocked writes over several connections",
  "Tests use clients that always read, so a lost write interest would not show.",
  ["lib/http2_server.cpp", "lib/pollers/epoll_poller.cpp", "lib/http2_conn.cpp"], [("poller.set on WantWrite and on write events", "lib/http2_server.cpp")], [("registered_fds_", "interest per descriptor", "lib/pollers/epoll_poller.h")], ["poll interest and system calls per event round"])

p("C28", "Both pollers report exactly the readiness that was asked for",
  "For every history of registering, changing and removing descriptors, including closed and reused numbers, a poll reports each registered descriptor that is ready for what it is registered for, and hangups and errors on it, in the same way with both implementations, and reports no event for a descriptor that has been removed, "
  "was never registered, or is not ready. Any number of ready descriptors is reported in full by consecutive polls; with none ready the call returns a timeout after the given time.",
  ["histories", "schedules"], "every sequence of registrations, readiness changes and polls",
  "Pollers are not tested directly and poll() is not used on Linux at all.",
  ["lib/pollers/epoll_poller.cpp", "lib/pollers/poll_poller.cpp", "lib/pollers/poller.h"], [("EPollPoller", "lib/pollers/epoll_poller.cpp"), ("PollPoller", "lib/pollers/poll_poller.cpp")], [("registered_fds_ / fd_events_", "interest set", "lib/pollers")], ["result of poll()"])

p("C29", "The TCP transport conserves the byte stream and classifies outcomes truly",
  "Bytes read through the transport are exactly those the peer sent, in order; a write reports exactly how many of the given bytes were taken. Would-block, end of stream and failure are each reported as what they are, never as data and never as one another, and after shutdown the peer still receives everything written before it and then end of stream.",
  ["schedules", "fault_sequences", "inputs"], "every sequence of reads, writes and shutdowns with every kernel outcome (short counts, would-block, reset, end of stream)",
  "The transport has no tests of its own; short writes never occur in the integration tests.",
  ["lib/transports/tcp_transport.cpp", "lib/socket_fd.cpp"], [("TcpTransport::read / write", "lib/transports/tcp_transport.cpp")], observe=["return values against the peer's view"])

p("C30", "TLS carries the same service: h2 negotiated, same bytes, failures contained",
  "Over TLS a client that offers h2 has it selected, and any request sequence, cut up in any way, gets the same frames as over cleartext, with large responses to slow readers complete and intact. "
  "A client that fails the handshake, sends garbage before or after it, or disappears without closing is dropped, without affecting any other connection.",
  ["schedules", "fault_sequences", "histories"], "every interleaving of TLS clients, including failing ones at every phase",
  "TLS is only exercised through one client library with complete handshakes.",
  ["lib/transports/tls_transport.cpp", "lib/transports/tls_context.cpp", "lib/http2_conn.cpp"], [("TlsTransport::handshake / read / write", "lib/transports/tls_transport.cpp"), ("alpn_callback", "lib/transports/tls_context.cpp")], observe=["decrypted frames at the client"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
