#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

T1 = "core/http/transport_v1.cpp"; CONN = "core/network/tcp/connection.cpp"; LIS = "core/network/tcp/listener.cpp"
WRK = "core/server/worker.cpp"; INST = "core/server/instance.cpp"

prop("C01", "Every HTTP request is delivered once, in order and intact",
 "Every complete, well-formed HTTP/1.1 request a client sends on a connection is handed to the handler exactly once, in the order sent, with the method, path, query parameters, headers (all values of repeated ones), credentials, host and body it carried. "
 "This does not depend on how the byte stream is cut into network segments, on pauses between segments, or on how many requests are pipelined into one segment. Requests announcing a transfer coding, which the server does not implement, are refused and never delivered.",
 ["inputs", "histories", "schedules"],
 "All sequences of well-formed requests on one or several connections (any known method, origin-form targets, query keys distinct, any path/query/header/body bytes legal in HTTP, bodies framed by content-length and within the size limit), all segmentations of the byte stream and all pauses shorter than the receive timeout.",
 "No test drives the HTTP server at all; the examples are only compiled, so no segmentation, pipelining or body framing is ever exercised.",
 [T1, CONN, WRK],
 [("header search over the connection's carry-over buffer", T1 + " TransportContextV1::awaitNext"), ("content-length body framing", T1 + " TransportContextV1::awaitNext"), ("request loop", WRK + " Server::connectionWorker")],
 [("m_readbuff", "bytes received but not yet consumed by a request", "core/http/transport_impl.hpp")],
 ["handler callback arguments of a LambdaInstance driven over a loopback socket"])

prop("C02", "The client receives exactly the response the handler returned",
 "For every response a handler returns, the client that asked receives one well-formed HTTP/1.1 message, in request order, with exactly that status code and reason, every header value the handler set (including repeated ones; line breaks inside a value become spaces), and a content-length equal to the number of body bytes that follow. "
 "After undoing the announced content coding the body is byte-for-byte the handler's body; a response to HEAD carries the headers but no body bytes, and one with status 204 or 304 has no body. "
 "Every message also carries a current date, a server name and a request identifier that matches the one the handler saw.",
 ["inputs", "histories"],
 "All status codes, header multisets, cookie sets and bodies (empty, binary, text, up to several megabytes) a handler can return, for any sequence of requests on a connection.",
 "No test sends a response through a socket; header serialisation, content-length and body transfer are untested.",
 [T1, "core/http/response.cpp", "core/http/body.cpp", "core/http/kvcontainer.cpp", WRK, CONN],
 [("response serialisation", T1 + " TransportContextV1::respond"), ("handler return conversions", WRK + " HandlerResponse"), ("socket write", CONN + " Connection::write")],
 observe=["raw bytes read by a client socket"])

prop("C03", "Response compression is only ever what the client asked for",
 "A response body is content-coded only with a coding that this very request listed as acceptable (brotli preferred to gzip preferred to deflate), only when compression is enabled, and only when the content is of a textual type or has no declared type; the announced coding is the one applied, and decoding gives back the handler's body. "
 "A response the handler already marked with a content coding is passed through unchanged.",
 ["inputs", "histories", "configurations"],
 "All Accept-Encoding lists, content types, bodies (including empty ones) and server configurations, for any sequence of requests with differing preferences on one connection.",
 "The compression tests call the codecs directly; nothing exercises negotiation, and state carried from one request to the next on a connection is never observed.",
 [T1, "core/compression/brotli.cpp", "core/compression/zlib_oneshot.cpp"],
 [("accept-encoding matching", T1 + " TransportContextV1::awaitNext"), ("compressible type table and coding switch", T1 + " TransportContextV1::respond")],
 [("m_compress", "coding negotiated for the pending request", "core/http/transport_impl.hpp")])

prop("C04", "Connection persistence is announced truthfully",
 "Every response announces either keep-alive or close, and the server does exactly that: after keep-alive the next request on the same connection is served, after close the server closes the connection once the whole response has been sent. "
 "A client that asks for close (in any letter case), a handler that asks for close, or a server configured not to reuse connections always gets close, and so does a request that is refused as malformed; a client that asks for nothing or for keep-alive gets keep-alive otherwise. Upgraded connections and event streams are outside this rule.",
 ["inputs", "histories", "configurations"],
 "All sequences of requests with any combination of Connection request headers, handler-set Connection headers and reuse configuration, pipelined or not.",
 "No test opens a second request on a connection.",
 [T1, WRK, CONN],
 [("keep-alive state machine", T1 + " awaitNext/respond"), ("connection end", CONN + " Connection::end")],
 [("m_keepalive", "unknown / keep-alive / close state of the connection", "core/http/transport_impl.hpp")])

prop("C05", "No client behaviour can take the server down",
 "Whatever bytes a client sends, whenever it stops sending, disconnects or resets, the server process keeps running without memory errors and keeps answering other clients correctly. "
 "A malformed request (no three-part start line with a known method and HTTP/1.x version, a control character in the start line, a header line without a name or a colon, an invalid or conflicting content-length, a transfer coding, an incomplete header or body) is answered with an error (4xx, or 501 for an unknown method or transfer coding) or dropped by closing that connection, and is never passed to the handler.",
 ["inputs", "fault_sequences", "schedules"],
 "All byte strings (structured mutations of valid requests and random bytes), all points of disconnect or reset while the server reads, handles or writes, concurrently with well-behaved clients.",
 "The only network test waits for one manual client and is not run; robustness against hostile input quantifies over every byte string and disconnect point.",
 [T1, CONN, LIS, WRK, INST, "core/http/auth.cpp", "core/encoding/base64.cpp"],
 [("exception containment of the connection worker", WRK + " Server::connectionWorker"), ("protocol errors", T1 + " awaitNext"), ("write error handling", CONN + " Connection::write")])

prop("C06", "A failing handler harms only its own request",
 "If a handler throws anything at all or returns no response, exactly that request is answered with status 500 and an error page in the configured format: an HTML page, a JSON document that parses and carries the failure text, or plain text containing it. "
 "The connection, the other connections and later requests are unaffected.",
 ["inputs", "histories", "configurations"],
 "All sequences mixing successful and failing requests (standard and non-standard exceptions, any message text, empty returns), on any number of connections, under each error page format.",
 "The crash example is only compiled; no test throws from a handler.",
 [WRK, "core/server/errorpage.cpp", "core/html/renderer.cpp", "core/json/stringify.cpp"],
 [("handler exception barrier", WRK + " connectionWorker"), ("error page rendering", "core/server/errorpage.cpp Pages::renderErrorPage")])

prop("C07", "The request size limit is enforced exactly",
 "A request whose header section (up to and including the blank line) plus body exceeds the configured maximum is refused with status 413, never reaches the handler, and the connection is then closed; this holds however the request is segmented, and no more than the limit is waited for. "
 "A request within the limit is never refused for its size, no matter what other data is pipelined with it.",
 ["inputs", "configurations", "histories"],
 "All limits, header and body sizes around and far from the limit, declared lengths up to 2^64, and segmentations.",
 "No test configures a limit or sends a large request.",
 [T1, WRK],
 [("header and total size checks", T1 + " awaitNext"), ("protocol error response", WRK + " handleProtocolError")])

prop("C08", "WebSocket messages from the client arrive intact and in order",
 "Every text or binary frame (and continuation frame) a client sends on an upgraded connection is delivered to the handler exactly once, in order, with its exact payload, its text/binary kind and whether more parts follow, however the bytes are segmented or batched and whatever control frames are interleaved; unsolicited pongs are ignored. "
 "Pings are answered with pongs carrying the same payload in order, a close frame is answered with a close frame, and frames that are unmasked, use a reserved opcode or reserved bits, break the rules for control frames or fragmentation, or exceed the size limit end the connection with a close frame and the matching status code instead of being delivered.",
 ["inputs", "histories", "schedules"],
 "All sequences of client frames (payload sizes 0 to beyond 65535, all masks, fragmentation with interleaved control frames), all segmentations of the byte stream, all pauses.",
 "No test opens a WebSocket; the example is only compiled.",
 ["core/websocket/transport.cpp", "core/websocket/websocket.cpp", T1],
 [("frame reader", "core/websocket/transport.cpp WebsocketContext::asyncWorker"), ("header parser", "core/websocket/transport.cpp parseFrameHeader"), ("message queue", "core/websocket/websocket.cpp nextMessage/awaitMessage")],
 [("m_queue", "frames received and not yet taken by the handler", "core/websocket/websocket.hpp")])

prop("C09", "WebSocket handshake, outgoing messages and close follow the protocol",
 "A valid upgrade request is answered with status 101 and the accept value the standard prescribes for its key, one that is not a GET, asks for no websocket upgrade or has no key with a 4xx response and no upgrade. "
 "Every message the handler sends arrives as one well-formed unmasked frame with exactly its payload and kind, in order per sender and never interleaved with other frames even when several threads send while pings are being answered; closing or abandoning the socket sends one close frame with the right status code and nothing after it. A client that answers the server's pings is never disconnected for inactivity, one that stops answering is closed.",
 ["inputs", "histories", "schedules"],
 "All handshake header combinations, all message sizes and kinds (payload length encodings 7, 16 and 64 bit), all numbers of concurrently sending threads and ping activity.",
 "Nothing exercises the handshake or the frame writer; frame interleaving depends on thread schedules.",
 ["core/websocket/websocket.cpp", "core/websocket/transport.cpp", "core/crypto/sha1.cpp", "core/encoding/base64.cpp", CONN],
 [("handshake", "core/websocket/websocket.cpp WebsocketContext::WebsocketContext"), ("frame serialiser", "core/websocket/transport.cpp serializeMessage"), ("write lock", CONN + " Connection::write")])

prop("C10", "Server-sent events reach the client exactly as pushed",
 "After a handler starts an event stream the client receives status 200 with the event-stream content type, marked as not to be cached and open to the origin the client names, and a standard event-stream parser recovers exactly the events pushed, in order, with their data (multi-line data included, line breaks normalised), event name, id (line breaks in either become spaces and can forge nothing) and retry value. "
 "When the handler closes the stream a final close event is sent and the connection ends; pushing to a client that has gone away is sooner or later reported to the handler and harms nothing else. A stream that is open while its server shuts down is told so, and what its handler still pushes, and its close event, arrive.",
 ["inputs", "histories", "fault_sequences"],
 "All sequences of events (any data text including newlines and empty lines, optional fields), all client disconnect points.",
 "The SSE example is only compiled; no test consumes a stream.",
 ["core/sse/writer.cpp", "core/sse/sse.hpp", T1, WRK],
 [("event serialiser", "core/sse/writer.cpp"), ("stream upgrade", WRK + " upgradeCallbackSSE")])

prop("C11", "Servers start, stop and restart cleanly",
 "Between construction and shutdown a server accepts and serves connections, up to its configured connection limit (at least 50, or 0 for none) when it tracks them, and connections beyond the limit are closed without being served while earlier ones are unaffected and capacity freed by finished connections becomes available again. "
 "After shutdown it accepts no further connection, requests already being handled complete, waiting for it returns, no handler runs afterwards, and the port can be bound again at once by a new instance (with fast port reuse); any number of start/stop cycles leaves nothing behind.",
 ["histories", "schedules", "configurations"],
 "All interleavings of start, client connects, requests in flight, shutdown, wait, destruction and restart, with and without connection tracking (destruction under load only with tracking, as documented).",
 "The restart test performs two idle start/stop cycles without a single connection.",
 [INST, LIS, WRK],
 [("accept loop", INST + " LambdaInstance::LambdaInstance"), ("terminate / awaitFinished / destructor", INST), ("listener stop", LIS + " ListenSocket::stop")],
 [("m_connections", "tracked connection workers", "core/server/server.hpp"), ("m_terminated", "shutdown flag", "core/server/server.hpp")])

prop("C12", "Connections release every resource they used",
 "After any history of connections (served, refused, malformed, reset, timed out, upgraded) has ended, the server holds no socket, thread or growing memory for them, and a connection that stays needs no more memory the more it carries. "
 "A connection that stays idle longer than the configured receive timeout is closed, in any connection tracking mode, without waiting for further traffic (upgraded websockets follow their heartbeat instead).",
 ["histories", "fault_sequences", "configurations"],
 "All histories of client connections of every kind, with and without connection tracking, and all timeout settings.",
 "No test counts descriptors, threads or memory after serving anything.",
 [CONN, LIS, INST, WRK, T1],
 [("socket ownership", CONN + " destructor/move/end"), ("worker reclamation", INST), ("timeouts", CONN + " setTimeouts")])

prop("C13", "The static file server serves exactly the files under its root",
 "For every request path the static server returns either status 200 with the exact bytes of a regular file inside its root directory and the media type of its extension, or status 404; no path, however it is spelled (dot segments, backslashes, repeated or missing slashes, over-long or odd bytes), yields content from outside the root or ends the process. "
 "Every regular file under the root whose path has no backslash is reachable by that path, dot segments are removed as in RFC 3986 (backslashes counting as slashes), and a directory path yields its index page if and only if one exists. On the 404 page the requested path shows up as plain text only, never as markup.",
 ["inputs", "configurations"],
 "All directory trees (names, nesting, sizes, empty and binary files) and all request path strings.",
 "No test touches the static server; containment quantifies over every spelling of a path.",
 ["extra/staticserver/staticserver.cpp", "core/polyfill/mimetype.cpp"],
 [("path flattening", "extra/staticserver/staticserver.cpp flattenPathName"), ("path resolution", "extra/staticserver/staticserver.cpp resolvePath")])

prop("C14", "Key-value storage survives restarts, crashes and damaged files",
 "After any sequence of set, remove, clear and reopen, the store holds exactly the keys and values of the last completed operations, and so does a fresh process opening the same file; opening an existing file keeps its permissions. "
 "If the process is killed at any point, including while opening, a later open sees every completed operation and at most the one in flight, whole; if a write fails the caller is told. "
 "A truncated file is either refused with an error and left unmodified, or opened with the effect of a prefix of its operations; a file of another format is refused and left unmodified; no damage makes opening crash, hang or touch a refused file (the format has no checksums, so changed key or value bytes cannot be told).",
 ["histories", "crash_points", "fault_sequences", "inputs"],
 "All operation sequences over arbitrary byte-string keys (up to the format's 65535-byte limit, longer ones being refused) and values, all kill points between file-system effects, failing writes, and all truncations and corruptions of the file.",
 "The storage test writes a handful of short pairs and reopens once; no crash, fault or odd key is tried.",
 ["extra/kvstorage/driver.cpp", "extra/kvstorage/interface.cpp"],
 [("transaction log", "extra/kvstorage/driver.cpp Driver::handleTransaction"), ("replay and compaction on open", "extra/kvstorage/driver.cpp Driver::Driver")],
 [("db file", "header plus log of put/remove/clear records", "extra/kvstorage/driver.hpp")])

prop("C15", "Key-value storage is safe under concurrent use",
 "When several threads use one store at once, every operation behaves as if it happened at one instant between its call and its return: reads return the value of the latest write, never a mixture, and no operation crashes. "
 "What a reopen finds afterwards is exactly the final state all threads agreed on.",
 ["schedules", "histories"],
 "All interleavings of set, get, has, remove, clear and size from any number of threads.",
 "The storage test is single-threaded.",
 ["extra/kvstorage/interface.cpp", "extra/kvstorage/driver.cpp"],
 [("store mutex", "extra/kvstorage/interface.cpp StorageInterface")],
 [("data", "in-memory map mirrored by the log", "extra/kvstorage/kvstorage.hpp")])

prop("C16", "The virtual file system behaves as a case-insensitive file map",
 "After any sequence of write, overwrite, remove, move and snapshot load, reading, listing, file information and totals agree with a simple map from case-folded names to contents: what was last written is what is read, removed files are gone, a move carries content and times and replaces any target, moving a missing file fails and changes nothing, and totals equal the number of files and the sum of name and content sizes. "
 "Creation time is kept and modification time updated by an overwrite (creation times of files loaded from a snapshot are unspecified), and concurrent use from several threads never corrupts the map.",
 ["histories", "schedules", "inputs"],
 "All operation sequences over arbitrary names and contents, including self-moves, case variants and overwriting moves, and all thread interleavings.",
 "The single vfs test is flaky upstream and excluded from the baseline; it covers one fixed sequence.",
 ["extra/vfs/interface.cpp", "extra/vfs/vfs.hpp"],
 [("normalised map and running totals", "extra/vfs/interface.cpp")],
 [("m_data", "files by case-folded name", "extra/vfs/vfs.hpp"), ("m_info", "running totals", "extra/vfs/vfs.hpp")])

prop("C17", "VFS snapshots round-trip and are real tar archives",
 "Saving any file set (names not empty and free of NUL, others being refused) as .tar, .tar.gz or .tgz and loading it into an empty file system gives the same names, contents and modification times; loading into a non-empty one replaces exactly the files contained in the archive. "
 "Saved archives are accepted by standard tar and gzip with the same contents, ustar archives made by standard tar (hard links aside) load with the same contents, and truncated, foreign or detectably damaged files (a plain archive carries checksums for its headers, a compressed one for everything) are refused with an error, never a crash or a hang, whatever has been loaded before; failing writes are reported.",
 ["inputs", "histories", "schedules"],
 "All file sets (name lengths across the 100-byte header field, non-ASCII names, content sizes around every multiple of the 512-byte block and the compression chunk, empty files, empty sets), all three extensions in any case, all corruptions of an archive.",
 "The vfs test round-trips a few small files and is flaky upstream; block-size, long-name and chunk boundaries are never hit on purpose.",
 ["extra/vfs/format_tar.cpp", "extra/vfs/syncqueue.cpp", "extra/vfs/interface.cpp", "core/compression/zlib_stream_compress.cpp", "core/compression/zlib_stream_decompress.cpp"],
 [("tar writer and reader", "extra/vfs/format_tar.cpp"), ("producer/consumer queue", "extra/vfs/syncqueue.cpp")])

prop("C18", "JSON documents round-trip and conform to the standard",
 "Serialising any JSON value the library can represent (undefined and non-finite numbers aside) and parsing the text back gives an equal value, the text is valid JSON that an independent parser reads as the same value, and every valid JSON text within the representable range parses to the value the standard gives it (integers beyond 32 bits as floating point, of a repeated key the last value), whatever the locale of the process. "
 "Copying and assigning values gives deep, independent copies; typed access to the wrong type fails with an error; no input text makes parsing crash, hang or read out of bounds.",
 ["inputs", "programs"],
 "All value trees (32-bit integers, finite floats within the printed precision, strings of any bytes, nested arrays and objects), all valid JSON texts with any legal whitespace and escapes, and all malformed texts.",
 "The JSON tests cover a few flat documents.",
 ["core/json/parse.cpp", "core/json/stringify.cpp", "core/json/property.cpp"],
 [("parser", "core/json/parse.cpp"), ("serialiser", "core/json/stringify.cpp"), ("value type", "core/json/property.cpp")])

prop("C19", "Base64, hex and URI coding are exact inverses and reject bad input",
 "For every byte string, base64, hex and URI-component encoding agree with the standards and decoding the result gives back the same bytes; hex decoding accepts either letter case and base64 decoding also accepts unpadded input. "
 "Text outside the alphabet (whatever the locale of the process) or of impossible hex length is rejected with an error, and no input makes a codec read or write out of bounds.",
 ["inputs"],
 "All byte strings of all lengths for encoding; all strings for decoding.",
 "The encoding tests use a few fixed strings, all of them valid.",
 ["core/encoding/base64.cpp", "core/encoding/hex.cpp", "core/encoding/url.cpp"],
 [("table codecs", "core/encoding/")])

prop("C20", "Compression codecs lose nothing and reject garbage",
 "For every input, quality and format, decompressing what the library compressed gives back the input, independent implementations decompress it to the same bytes, and the library decompresses what independent implementations produced (one gzip member at a time), whether in one shot or streamed in chunks of any size (empty chunks included); one-shot coding maps empty input to empty output. "
 "Truncated compressed data is rejected, corrupted data of a format with a checksum is rejected or yields the original, a compressor or decompressor can be reset and moved without losing correctness, and nothing leaks.",
 ["inputs", "histories"],
 "All inputs (empty, tiny, repetitive, incompressible, longer than the internal 128 KiB chunk and exact multiples of it), all qualities and header formats, all chunkings of a stream, and all truncations and single-byte corruptions.",
 "The zlib and brotli tests round-trip one small buffer each.",
 ["core/compression/brotli.cpp", "core/compression/zlib_oneshot.cpp", "core/compression/zlib_stream_compress.cpp", "core/compression/zlib_stream_decompress.cpp"],
 [("one-shot codecs", "core/compression/zlib_oneshot.cpp, brotli.cpp"), ("stream codecs", "core/compression/zlib_stream_*.cpp")])

prop("C21", "SHA-1 digests equal the standard's for every input and chunking",
 "For every byte sequence, hashing it in one piece or in any sequence of pieces, given as bytes or as text, yields the standard 20-byte SHA-1 digest. "
 "A hasher that has been reset behaves like a new one.",
 ["inputs", "histories"],
 "All byte strings (every length across the 64-byte block and 55/56-byte padding boundaries, multi-megabyte inputs) and all ways of splitting them into updates.",
 "No test covers SHA-1 beyond a fixed vector at most.",
 ["core/crypto/sha1.cpp"],
 [("block transform, padding and length", "core/crypto/sha1.cpp")])

prop("C22", "URLs and query strings parse to the right parts and print back",
 "Every absolute http-style URL or absolute path parses into exactly its protocol, credentials, host, host name, port, path, query parameters and fragment, and printing a parsed URL and parsing it again gives the same parts. "
 "A query string yields each key=value pair (with a value) as written (no decoding; of a repeated key the last value counts), found by its key in any letter case; texts without a protocol or host are rejected with an error, and no text makes the parser crash.",
 ["inputs"],
 "All combinations of URL components (credentials with both parts, any port, any path, any query of non-empty pairs including values with '?' and '=', any fragment) and all malformed texts.",
 "The URL test parses a few fixed addresses.",
 ["core/http/url.cpp", "core/http/urlsearchparams.cpp", "core/http/kvcontainer.cpp"],
 [("component scanner", "core/http/url.cpp URL::parse"), ("printer", "core/http/url.cpp URL::href"), ("query parser", "core/http/urlsearchparams.cpp")])

prop("C23", "Header collections are case-insensitive ordered multimaps",
 "After any sequence of construction, set, append and delete, a header collection answers get, get-all, has, size and entries like a multimap keyed by lower-cased name that keeps the values of a name in insertion order: set replaces all values, append adds one, delete removes all, and size counts the distinct names. "
 "Copies are independent of the original and moved-into collections hold everything the source held.",
 ["histories", "inputs"],
 "All operation sequences over arbitrary names (any letter case) and values.",
 "The headers test performs a few fixed operations.",
 ["core/http/kvcontainer.cpp", "core/http/http.hpp"],
 [("normalised map of value lists", "core/http/kvcontainer.cpp")])

prop("C24", "Cookies are read and written correctly",
 "Every name=value pair (with a value) of a Cookie request header can be read back by its name in any letter case, and every cookie set, changed or deleted by the handler produces exactly one Set-Cookie line with the (lower-cased) name, the latest value and every attribute given, a deletion being one that expires in the past. "
 "Copies and moves of a cookie collection keep both the readable values and the pending changes.",
 ["histories", "inputs"],
 "All cookie headers made of legal pairs, and all sequences of set, set with attributes, delete, copy, move and assignment.",
 "The cookie test covers a few fixed pairs.",
 ["core/http/cookies.cpp", "core/http/request.cpp", "core/http/response.cpp"],
 [("pair parser", "core/http/cookies.cpp"), ("pending change queue", "core/http/cookies.cpp serialize"), ("response attachment", "core/http/response.cpp setCookies")])

prop("C25", "Basic authentication credentials are decoded exactly",
 "For every user name without a colon and every password, the header a standard client sends for them is decoded to exactly that user name and password, including passwords that are empty or contain colons, whatever the letter case of the scheme. "
 "Headers of another scheme, or without a valid encoded user:password pair, yield no credentials or an error, never a crash or another user's name.",
 ["inputs"],
 "All user/password byte strings and all header texts.",
 "No test covers authentication.",
 ["core/http/auth.cpp", "core/encoding/base64.cpp", T1],
 [("header parser", "core/http/auth.cpp parseBasicAuth")])

prop("C26", "Template rendering substitutes exactly the placeholders",
 "Rendering replaces every well-formed {{ name }} placeholder by its value (or by nothing if the name is unknown), leaves every other byte of the template untouched including malformed placeholders (a placeholder runs from its opening braces to the next closing ones; names consist of ASCII letters, digits and underscores), and inserts values verbatim: text inside a value is never itself expanded. "
 "Rendering terminates without error for every template and every set of values.",
 ["inputs"],
 "All template texts (nested, unbalanced, adjacent, whitespace-padded braces) and all value maps including values that look like placeholders.",
 "No test renders a template.",
 ["core/html/renderer.cpp"],
 [("scanner", "core/html/renderer.cpp renderTemplate")])

prop("C27", "Log lines from concurrent threads never mix",
 "Every log call writes exactly one line consisting of the textual forms of its non-empty items separated by single spaces (nothing at all when every item is empty), to standard output or standard error as asked, and lines written by concurrent threads are never interleaved, lost or duplicated.",
 ["schedules", "inputs"],
 "All item types and values and all numbers of concurrently logging threads.",
 "Log output is never captured by a test.",
 ["core/utils/syncout.cpp", "core/utils/utils.hpp"],
 [("single locked write", "core/utils/syncout.cpp WrapperImpl::log/error")])

prop("C28", "String utilities do what their documentation says",
 "For every string, case conversion, trimming, splitting, joining, searching, prefix and suffix tests, and single and global replacement give exactly the result their documentation describes, for empty strings, empty needles, needles longer than the text, overlapping and repeated matches, and non-ASCII bytes. "
 "The copying and in-place forms agree, joining what was split restores the text up to one trailing separator, and every call terminates without reading out of bounds.",
 ["inputs"],
 "All strings and needles over all byte values.",
 "The string test covers a few fixed ASCII examples.",
 ["core/polyfill/strings.cpp", "core/polyfill/polyfill.hpp"],
 [("pure functions", "core/polyfill/strings.cpp")])

prop("C29", "Dates break down and print correctly for every instant",
 "For every instant in years 1970 to 9999 the date accessors and printed forms give the correct UTC calendar date and time, in particular the HTTP date format, independent of the process's time zone and locale environment.",
 ["inputs", "configurations"],
 "All time values in range (leap years, century and year boundaries) and all time zone settings.",
 "No test covers dates.",
 ["core/polyfill/date.cpp"],
 [("UTC breakdown", "core/polyfill/date.cpp")])

prop("C30", "The TCP layer transfers bytes faithfully and reports failures",
 "Everything written to a connection arrives at the peer unchanged and in order, also when several threads write (each write contiguous), and reads return exactly the bytes the peer sent, never more than requested, until the peer's end of stream, which ends the connection. "
 "Timeouts take effect at the configured duration including fractions of a second, a write to a peer that is gone is reported as an error, using a closed connection is an error, and moving a connection or listener transfers the open socket without leaking or closing it.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "All write and read size sequences, peer behaviours (slow, closing, resetting), timeout values, and moves between objects.",
 "The TCP test waits for a manual client and is skipped.",
 [CONN, LIS],
 [("send/recv wrappers", CONN), ("accept", LIS + " acceptConnection")])

prop("C31", "Request and connection identifiers are consistent and distinct",
 "Every short identifier prints as the eight lower-case hex digits of the bytes of its numeric value, copies and moves keep it, and the identifiers handed out for requests and connections do not repeat beyond chance even when created by many threads at once. "
 "All requests of one connection report the same connection identifier, and each response's request-id header combines exactly the two identifiers its handler was given.",
 ["schedules", "histories", "inputs"],
 "All numeric values, all copy/move sequences, and all interleavings of concurrent creation.",
 "No test covers identifiers.",
 ["core/crypto/uid.cpp", T1, WRK],
 [("random id generator", "core/crypto/uid.cpp"), ("id propagation", T1 + " respond")])

prop("C32", "HTTP methods, statuses and media types keep their meaning",
 "Every known method name in any letter case maps to its method and prints back as its canonical name, equality agrees with the name, and unknown names are rejected with an error. "
 "Every standard status code carries its own code, reason phrase and class, unknown codes are rejected unless given a text, and a file extension (with or without path or dot) maps to its registered media type, unknown ones to the generic binary type.",
 ["inputs"],
 "All method strings, all 32-bit status codes, all file names and media types.",
 "No test covers these tables.",
 ["core/http/method.cpp", "core/http/status.cpp", "core/polyfill/mimetype.cpp"],
 [("lookup tables", "core/http/method.cpp, core/http/status.cpp, core/polyfill/mimetype.cpp")])

prop("C33", "Byte-order helpers convert exactly and are their own inverse",
 "For every 16, 32 and 64 bit signed or unsigned value, the network-order helper yields the value whose memory bytes are its big-endian form, the storage-order helper the little-endian form, and applying either twice gives the value back.",
 ["inputs"],
 "All 16-bit values, and all 32/64-bit values.",
 "No test covers these helpers.",
 ["core/utils/byteswap.cpp"],
 [("swap macros", "core/utils/byteswap.cpp")])

prop("C34", "Handlers and the log identify every client and request truthfully",
 "The handler is told the address and port its client really connected from and the server's port. With request logging on, every request that was answered leaves exactly one line on standard output, in the order of its connection, giving its request identifier, the client (its address, or the connection's identifier when transport logging is on), the method, the path and the status sent or the protocol switched to; "
 "a handler that fails leaves one line with its identifiers and failure text on standard error, and a connection ended as malformed one line that says so. With transport logging on every connection is announced once with its client's address and port and its end is logged once. A server's start is announced once with the port it listens at if that is asked for, and its shutdown once. With a kind of logging off none of its lines appear, and lines of concurrent connections never mix.",
 ["histories", "schedules", "inputs"],
 "All request histories on any number of concurrent connections under every combination of logging options and tracking mode.",
 "No test looks at what the server logs or at the connection information handlers get.",
 [WRK, "core/utils/syncout.cpp", "core/network/tcp/listener.cpp", T1],
 [("request and transport log lines", WRK), ("client address", "core/network/tcp/listener.cpp")])

prop("C35", "The generated single-file header carries the code of every header",
 "Given headers that follow the project's conventions (include guards, quoted includes relative to the including file, system includes in angle brackets), the single file header generated from the entry header contains every system include exactly once and the code of every project header exactly once, at the place of its first inclusion, with all its tokens (string and character literals, raw text in them, preprocessor directives) intact and in order; only comments, guards and blank lines are dropped. "
 "If an input is missing or unreadable an error is reported and an earlier output stays as it was. The version resource tool fills in every placeholder of its template with the given value and changes nothing else.",
 ["inputs", "configurations"],
 "All trees of headers: any inclusion graph, directory layout, spelling of paths, line ends, comment placement and literal content.",
 "The tests link the library directly and never use the generated header.",
 ["tools/gensfi/main.cpp", "tools/updatedllinfo/main.cpp"],
 [("include resolution and merging", "tools/gensfi/main.cpp"), ("placeholders", "tools/updatedllinfo/main.cpp")])

prop("C36", "Request, response and body objects hold exactly what they were given",
 "A body made from or assigned a string, a byte vector or C text reports exactly those bytes through every accessor (text, buffer, size, conversion to a string), zero bytes and bytes above 127 included; a null text gives an empty body. Every constructor of a request or a response puts each given part (URL, method, status, headers, body) in its place and leaves the others at their defaults. "
 "Copies are independent of the original, and copied, moved-into and assigned objects hold everything the source held.",
 ["inputs", "histories"],
 "All byte contents, all constructor forms and all histories of assigning, copying and moving.",
 "The tests build requests and responses from short literal texts only.",
 ["core/http/http.hpp", "core/http/body.cpp", "core/http/request.cpp", "core/http/response.cpp"],
 [("body constructors, assignment and accessors", "core/http/body.cpp"), ("request constructors", "core/http/request.cpp"), ("response constructors", "core/http/response.cpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
