#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, state=(), obs=(), hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = list(obs)
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Received frames are decoded exactly and without memory errors",
  "For every byte buffer and starting offset, decoding the frame that starts there yields exactly the flags, opcode, mask bit, length and unmasked payload RFC 6455 section 5.2 assigns to those bytes, and advances the offset to exactly the first byte after the frame. If the buffer ends before the frame does (including announced lengths that no buffer could hold), the frame is reported as incomplete by an offset beyond the buffer and no payload is delivered. The input is never modified and nothing outside it is read.",
  ["inputs"], "all buffers of any length, all offsets, all header encodings, all masking keys, every truncation point, every announced 64-bit length",
  "test_frame.c decodes a handful of fixed frames; vector-width tails, extended lengths, truncations at each byte and lengths near 2^64 are not sampled.",
  ["src/frame.c", "include/frame.h"], [("header decoding, bounds", "src/frame.c WSS_parse_frame"), ("vectorised unmasking", "src/frame.c unmask"), ("byte order", "src/frame.c ntohl64/htons16")])
p("P02", "Sent frames are serialised canonically and completely",
  "For every frame, the serialised bytes are the RFC 6455 encoding of its flags and opcode, an unmasked, minimal length encoding of its payload, and the payload itself, and the returned length is exactly the number of bytes produced. Serialising a list of frames produces the concatenation of the individual encodings in order, with the sum of the lengths. When memory runs out nothing is returned and the length is zero.",
  ["inputs", "fault_sequences"], "all frames: all flag combinations, opcodes, payload lengths (7-bit, 16-bit and 64-bit encodings), frame counts; allocation failures",
  "test_frame.c serialises a few short frames; the length-encoding boundaries (125/126, 65535/65536) and multi-frame offsets are not covered for all values.",
  ["src/frame.c"], [("single-frame serialisation", "src/frame.c WSS_stringify_frame"), ("frame-list serialisation", "src/frame.c WSS_stringify_frames")])
p("P03", "Decoding what was encoded gives back the same frame",
  "For every frame the server can produce, decoding its serialised form consumes exactly that many bytes and yields the same flags, opcode and payload. Consecutive frames in one buffer are recovered one after the other.",
  ["inputs"], "all flags, opcodes, payload lengths and payload contents",
  "The tests check encode and decode separately on fixed examples; the composition over all lengths is not tested.",
  ["src/frame.c"], [("encode", "src/frame.c WSS_stringify_frame"), ("decode", "src/frame.c WSS_parse_frame")])
p("P04", "A message is fragmented into a faithful sequence of frames",
  "For every message, data opcode and configured frame size, the produced frames carry the message's bytes in order with nothing lost, repeated or added, no frame is larger than the configured size, only the last one is final, and no frame is empty unless the message is. The first frame carries the message's opcode and every further frame of the message is a continuation. A close message produces a single final close frame whose payload is the given two-byte status code and reason, the reason cut at a character boundary if it would exceed the 125 bytes of a control frame.",
  ["inputs", "configurations"], "all message lengths and contents, all frame sizes, all opcodes",
  "test_frame.c fragments only a few messages and does not check the opcodes of continuation frames or sizes at exact multiples.",
  ["src/frame.c"], [("fragmentation", "src/frame.c WSS_create_frames")])
p("P05", "Control frames built by the server are valid",
  "Every close, ping and pong frame the server builds is final, unmasked, has no reserved bits set, carries the right opcode and at most 125 payload bytes. A close frame built for a status code starts with that code in network byte order followed by the reason text. A pong carries exactly the application data of the ping it answers.",
  ["inputs"], "all close codes, all reasons, all ping payloads including those claimed by extensions",
  "The tests build one frame per code; payload content, flags of the received ping and long reasons are not varied.",
  ["src/frame.c"], [("close", "src/frame.c WSS_closing_frame"), ("ping", "src/frame.c WSS_ping_frame"), ("pong", "src/frame.c WSS_pong_frame")])
p("P06", "UTF-8 validation accepts exactly well-formed UTF-8",
  "For every byte string, validation of text succeeds if and only if the string is well-formed UTF-8 as defined by Unicode (no overlong forms, no surrogates, nothing above U+10FFFF, no truncated or stray bytes). The answer does not depend on alignment, length or the instruction set compiled in, and no byte outside the string is read.",
  ["inputs"], "all byte strings of all lengths, each of the AVX2, SSE and portable implementations",
  "No unit test covers the validators directly; sequences that straddle 16- or 32-byte blocks, and every position of a malformed sequence, cannot be enumerated.",
  ["src/utf8.c", "include/utf8.h"], [("vector validators", "src/utf8.c utf8_check (AVX2/SSE)"), ("portable validator", "src/utf8.c utf8_check (DFA)")])
p("P07", "Base64 encoding and decoding are exact inverses and memory safe",
  "For every byte string, encoding yields exactly the RFC 4648 base64 text (with padding, NUL-terminated) and decoding that text yields the original bytes and length. For every text, decoding reads nothing outside it and never writes outside its result; text that is not base64 is rejected or decoded without memory errors.",
  ["inputs", "fault_sequences"], "all byte strings and all candidate base64 texts, all lengths; allocation failures",
  "No unit test covers base64 directly; all remainders, malformed texts and allocation failures cannot be enumerated.",
  ["src/b64.c", "include/b64.h"], [("encode", "src/b64.c b64_encode"), ("decode", "src/b64.c b64_decode_ex")])
p("P08", "The handshake answer proves knowledge of the client's key",
  "For every client key, the upgrade response carries the base64 of the SHA-1 of the key followed by the RFC 6455 GUID as accept value, names the negotiated subprotocol and extensions and nothing else, ends with one empty line, and its announced length is the number of bytes produced.",
  ["inputs"], "all keys, negotiated subprotocols, extension lists and parameters",
  "No unit test looks at the response; key lengths around SHA-1 block boundaries and extension lists of different lengths are not tried.",
  ["src/worker.c", "src/ssl.c", "include/worker.h"], [("response", "src/worker.c handshake_response"), ("hash", "src/ssl.c WSS_base64_encode_sha1")])
p("P09", "Only valid upgrade requests are upgraded",
  "A parsed request is upgraded if and only if it names an allowed host, origin and path (when such lists are configured), asks for a websocket upgrade, announces a supported version and carries a key that is the base64 of 16 bytes. Any refused request is answered with the HTTP status that matches the reason, and is never treated as a websocket connection.",
  ["inputs", "configurations"], "all combinations of parsed header values and allow lists",
  "test_header.c tries about thirty combinations; conditions are checked in isolation.",
  ["src/header.c"], [("policy", "src/header.c WSS_upgrade_header")])
p("P10", "HTTP request parsing is memory safe and enforces the size limits",
  "For every sequence of bytes received as a request head, parsing neither reads nor writes outside the received bytes, terminates, and either fills in the request with values taken from those bytes or answers with an HTTP error status. A request whose header, path or payload exceeds a configured limit is always refused with the status meant for it.",
  ["inputs", "configurations"], "all byte strings, all configured limits, header lines in any order and number, missing names or values",
  "test_header.c parses about thirty hand-written requests; missing values, empty lines and limits at their exact boundary are not covered.",
  ["src/header.c", "include/header.h"], [("parser", "src/header.c WSS_parse_header"), ("values", "src/header.c trim, header_value, header_set_version")])
p("P11", "HTTP error responses are well formed",
  "For every status, exception text, and configured asset path, the response produced for a request that is not upgraded has a status line, header lines, an empty line, and a body whose length is the announced content length. The announced message length is exactly the number of bytes of that response, without stray bytes.",
  ["inputs", "configurations"], "all statuses the server answers with, all exception texts and asset paths",
  "The tests only check that a message is returned for selected codes, not its layout or its length.",
  ["src/worker.c", "include/worker.h"], [("responses", "src/worker.c http_response, upgrade_response, favicon_response")])
p("P12", "Frames that break the protocol close the connection with the right code",
  "A received frame that violates RFC 6455 or a configured limit (unknown opcode, reserved bits without an extension, unmasked data, fragmented or oversized control frame, continuation without a start, new message inside a fragmented one, too many or too large frames, invalid close code, text that is not UTF-8) is never delivered to a subprotocol and is answered with the close code meant for it, and nothing received afterwards is processed. A ping is answered by a pong with the same data and a close by a close.",
  ["inputs", "histories"], "all sequences of received frames, however split over reads, with all configured limits",
  "No unit test runs the reading side of the server; orders, fragment positions and splits across reads are not explored.",
  ["src/worker.c"], [("frame checks", "src/worker.c WSS_read")])
p("P13", "Received messages are delivered whole, once and in order",
  "Every complete conforming message is handed to the subprotocol exactly once, in order of arrival, with exactly its own bytes: the concatenation of the payloads of its frames, NUL-terminated, with its exact length and opcode. An incomplete message is kept across reads and delivered when its last fragment arrives.",
  ["inputs", "histories"], "all fragmentations of messages, all splits over reads, control frames interleaved",
  "The tests send whole frames; splits at every byte and interleavings of control frames are not explored.",
  ["src/worker.c"], [("reassembly", "src/worker.c WSS_read")])
p("P14", "Queued messages are written in order, completely, once, until a close",
  "The bytes handed to the socket are the queued messages in order, each complete and once, however the socket splits the writes. After a close frame has been written completely nothing more is written and the connection is closed; until then a partial write is resumed exactly where it stopped. Any write error closes the connection and is never treated as success.",
  ["histories", "fault_sequences"], "all queues of messages, all partial-write and error patterns of the socket",
  "No unit test runs the writing side of the server; partial writes and errors do not occur.",
  ["src/worker.c"], [("writer", "src/worker.c WSS_write")])
p("P15", "The outgoing queue never loses, duplicates or reorders entries",
  "For every sequence of acquire, produce, consume and release operations, a produced entry is consumed exactly once in the order in which it was acquired, an acquire succeeds only when that many contiguous free slots exist, and slots in use are never handed out again. Consumption never covers slots that are not yet produced.",
  ["histories"], "all sequences of operations by one or several registered producers and one consumer, all capacities, wrap-arounds at any point",
  "No test exercises the queue directly; wrap-around with every combination of fill level and request size cannot be enumerated.",
  ["src/ringbuf.c", "include/ringbuf.h"], [("acquire", "src/ringbuf.c ringbuf_acquire"), ("consume", "src/ringbuf.c ringbuf_consume, ringbuf_release")],
  [("next, end, written, seen", "producer head, wrap end, consumed up to, per-producer position", "include/ringbuf.h struct ringbuf")])
p("P16", "Accepted work items are executed exactly once, in order",
  "A work item the pool accepts is executed exactly once, items are started in the order in which they were accepted, and an item is refused only when the queue is full or the pool is shutting down. A graceful shutdown executes every accepted item before it returns.",
  ["schedules", "histories"], "all sequences of additions and executions, all queue sizes",
  "No unit test covers the pool; a test would see one schedule at a time.",
  ["src/pool.c"], [("queue", "src/pool.c threadpool_add, threadpool_thread")],
  [("head, tail, count", "circular queue of tasks", "src/pool.c struct threadpool_t")])
p("P17", "A session is looked up, counted and removed consistently",
  "A session can be found by its descriptor from when it is added until it is deleted, is added only if the descriptor is not in use, and once deleted is never found again and all memory it owns is released. The job count of a session equals the number of jobs started minus those finished and never goes below zero.",
  ["histories"], "all sequences of add, find, job start/finish, ping and delete over any set of descriptors",
  "No unit test covers the session table; sequences of operations cannot be enumerated.",
  ["src/session.c"], [("table", "src/session.c WSS_session_add, WSS_session_find, WSS_session_delete"), ("jobs", "src/session.c WSS_session_jobs_inc/dec/wait")])
p("P18", "The allocation layer returns usable zeroed memory or nothing",
  "An allocation of n bytes returns either nothing or n accessible bytes that are all zero, and a request for zero bytes returns nothing. Growing or shrinking a block keeps the common prefix and zeroes the new part, and a failed or zero-sized resize leaves no dangling or leaked block. Freeing clears the caller's pointer so that a second free is harmless.",
  ["inputs", "fault_sequences"], "all sizes, all contents, all points of allocation failure",
  "test_alloc.c uses fixed sizes and never fails an allocation.",
  ["src/alloc.c", "include/alloc.h"], [("wrappers", "src/alloc.c WSS_malloc, WSS_calloc, WSS_copy, WSS_realloc, WSS_realloc_normal, WSS_memalign, WSS_free_normal")])
p("P19", "String helpers are exact and stay inside their buffers",
  "Hexadecimal conversion yields exactly the two hexadecimal digits of every byte in order, the membership test answers exactly whether the value occurs in the list, and loading a file yields exactly its bytes with a terminator and its length, or reports an error and leaves no memory or file open. None of them reads or writes outside the given strings, for any content including empty and unterminated data of the given length.",
  ["inputs", "fault_sequences"], "all byte strings and arrays, all lengths, all file sizes, failures of file operations",
  "test_str.c compares a few constants.",
  ["src/str.c", "include/str.h"], [("helpers", "src/str.c bin2hex, strinarray, strload")])
p("P20", "Configuration is taken over faithfully or rejected",
  "Every value of a well-formed configuration file appears unchanged in the resulting configuration, settings that are absent keep their defaults, and a file that is missing or malformed is reported as an error. Loading and releasing a configuration causes no memory error and leaks nothing.",
  ["inputs", "configurations", "fault_sequences"], "all configuration files, well formed or not",
  "test_config.c loads a few files.",
  ["src/config.c", "src/json.c", "include/config.h"], [("loader", "src/config.c WSS_config_load")])
p("P21", "Extensions are enabled exactly when both sides agree",
  "An extension is used on a connection only if the client offered it, the server has it loaded, and the extension accepted the offered parameters; its parameters in the answer are those it accepted. Each extension is enabled at most once per connection, in the order offered.",
  ["inputs"], "all offers: any number of extensions, parameters, repetitions and separators",
  "test_header.c tries a few offers.",
  ["src/header.c", "extensions/permessage-deflate/permessage-deflate.c"], [("negotiation", "src/header.c WSS_parse_header"), ("parameters", "extensions/permessage-deflate/permessage-deflate.c onOpen")])
p("P22", "Compression and decompression preserve messages",
  "With per-message compression negotiated, a message decompressed after compression is identical to the original for every message, window size and context-takeover setting, and each produced frame sequence carries the compressed message in order. Decompressed data larger than the configured limit or that is not valid compressed data closes the connection and never corrupts memory.",
  ["inputs", "histories", "configurations"], "all messages, sequences of messages on one connection, window sizes and takeover settings",
  "The extension is tested with a few messages through the server only.",
  ["extensions/permessage-deflate/permessage-deflate.c"], [("compress", "permessage-deflate.c outFrames"), ("decompress", "permessage-deflate.c inFrames")])
p("P23", "Subprotocol and extension lookups return the loaded component or nothing",
  "Looking up a subprotocol or extension by name returns the component loaded under exactly that name if there is one and nothing otherwise. Loading does not replace a component already loaded, and components whose required functions are missing are never made available.",
  ["histories", "inputs"], "all sequences of loads and lookups with any names",
  "test_subprotocols.c and test_extensions.c load a handful of modules.",
  ["src/subprotocols.c", "src/extensions.c"], [("tables", "src/subprotocols.c load_subprotocols, WSS_find_subprotocol; src/extensions.c load_extensions, WSS_find_extension")])
p("P24", "Echo answers the sender and broadcast reaches all the others",
  "Under the echo subprotocol every received message is sent back once, unchanged, to its sender and to nobody else. Under the broadcast subprotocol every received message is sent once, unchanged, to every other connected session and not to the sender, and sessions that left receive nothing.",
  ["histories", "inputs"], "all sequences of connects, disconnects and messages",
  "The subprotocol tests check the presence of callbacks and a few messages.",
  ["subprotocols/echo/echo.c", "subprotocols/broadcast/broadcast.c"], [("echo", "subprotocols/echo/echo.c onMessage"), ("broadcast", "subprotocols/broadcast/broadcast.c onConnect, onMessage, onClose")])
p("P25", "Only configured request targets are matched",
  "A request target is accepted if and only if it denotes one of the configured hosts, paths and queries, and every byte of the configured values is matched literally or by the documented placeholders.",
  ["inputs", "configurations"], "all request targets and all configured hosts, origins, paths and queries",
  "test_header.c uses a few targets.",
  ["src/http.c", "src/header.c"], [("request regex", "src/http.c generate_request_uri, WSS_http_regex_init"), ("regexec", "src/header.c WSS_upgrade_header")])
p("P26", "Sending a message enqueues it whole exactly once or reports failure",
  "A send either enqueues one buffer that contains exactly the serialised frames for that session and arranges for it to be written, or reports an error and enqueues nothing. In both cases the session's job count is restored, all temporary memory is released, and sending never blocks the deletion of the session forever.",
  ["inputs", "fault_sequences", "histories"], "all messages and sessions; queue full, allocation failure, invalid session, at any point",
  "No unit test covers sending; failures at every step cannot be sampled.",
  ["src/message.c"], [("send", "src/message.c WSS_message_send, WSS_message_send_frames")])
p("P27", "The outgoing queue is safe under concurrent producers",
  "With any number of threads producing messages for one connection while one thread consumes, every produced message is written exactly once and no thread overwrites another's slot, under every interleaving and memory ordering.",
  ["schedules"], "all interleavings of producers and the consumer under the C11 memory model",
  "No test runs producers concurrently; a test could only sample schedules.",
  ["src/ringbuf.c"], [("lock-free protocol", "src/ringbuf.c compare-and-swap on next, seen stamps")])
p("P28", "Idle and closing connections are eventually closed",
  "A client that neither sends data nor answers pings is disconnected within the configured timeouts, and a graceful shutdown eventually notifies and disconnects every client.",
  ["schedules", "histories"], "all timings of clients and of the server's threads",
  "Tests would have to wait for real time to pass and can sample only a few schedules.",
  ["src/worker.c", "src/server.c", "src/event.c"], [("timeouts", "src/worker.c, src/event.c"), ("shutdown", "src/server.c server_stop")])
p("P29", "TLS connections expose the same data as plain connections",
  "When encryption is enabled the protocol data seen by the server is the same as without it, certificates are verified as configured, and no application data is exchanged before the TLS handshake completes.",
  ["histories", "configurations"], "all peers, certificates and TLS record splits",
  "Tests exercise one certificate set-up.",
  ["src/ssl.c"], [("handshake and I/O", "src/ssl.c WSS_ssl_handshake, WSS_ssl_read, WSS_ssl_write")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
