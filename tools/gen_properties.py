#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=hook)))

prop("C01", "Raw TCP send puts every byte on the wire once, in order",
 "Whatever the operating system answers to the individual writes (short writes, interruptions, would-block, expired timeouts, errors), the bytes a raw send has put on the wire are always exactly the first `sent` bytes of the caller's data, each once and in order. It reports Success exactly when all bytes are out, WouldBlock only on a non-blocking socket, Timeout only on a blocking one and SendError for any real error; calling it again with the same `sent` after WouldBlock or Timeout continues where it stopped. A peer that has gone away makes the call fail with a status and never terminates the process.",
 ["inputs", "fault_sequences"],
 "all data lengths in the alphabet, all sequences of write outcomes up to the deviation bound, blocking and non-blocking mode, every resume after WouldBlock/Timeout",
 "The suite has no test that sends a byte through a socket; short writes and EINTR are answers of the kernel that a loopback test cannot provoke on demand.",
 ["src/TcpSocket.cpp", "include/frnetlib/TcpSocket.h", "include/frnetlib/NetworkEncoding.h"],
 [("send loop with the caller's cursor", "src/TcpSocket.cpp: TcpSocket::send_raw"), ("SIGPIPE is ignored", "include/frnetlib/NetworkEncoding.h: init_wsa")],
 ["fr::TcpSocket::send_raw"],
 [("sent", "cursor kept by the caller across calls", "argument of send_raw"), ("is_blocking", "decides WouldBlock or Timeout", "TcpSocket")])

prop("C02", "Raw and exact-length receive report precisely what was consumed",
 "A raw receive returns Success with the next bytes of the stream and their exact count, and otherwise a status that says why nothing was read (WouldBlock only when non-blocking, Timeout only when blocking, Disconnected only at end of stream, ReceiveError for a real error), never losing, repeating or reordering a byte. The exact-length receive returns Success only when exactly the requested bytes, in order, have been stored and consumed from the stream and nothing beyond them; it returns WouldBlock or Timeout only if not a single byte was consumed, so that the caller may simply retry, and fails otherwise.",
 ["inputs", "fault_sequences"],
 "all requested lengths in the alphabet, all segmentations of the stream and sequences of interruptions, would-blocks, timeouts, errors and disconnections up to the deviation bound, in both modes",
 "No test receives anything from a socket; the order in which partial data, interruptions and timeouts arrive is decided by the kernel and the network.",
 ["src/Socket.cpp", "src/TcpSocket.cpp", "include/frnetlib/Socket.h", "include/frnetlib/TcpSocket.h"],
 [("receive loop until the requested size", "src/Socket.cpp: Socket::receive_all"), ("recv result classification", "src/TcpSocket.cpp: TcpSocket::receive_raw")],
 ["fr::TcpSocket::receive_raw", "fr::Socket::receive_all"])

prop("C03", "Packets cross a connection intact, whole and in order",
 "Every packet sent through a connected socket arrives at the receiver's next packet receive with exactly the contents that were packed, ready to be extracted from its beginning, in sending order and without consuming bytes of the next packet, however the stream is segmented, interrupted or delayed and whether the receiving packet object is fresh or was used before. WouldBlock or Timeout is returned only if no byte of the packet was consumed; a stream that ends inside a packet is reported as a failure, never as Success. A packet larger than the receiver's size limit is refused with MaxPacketSizeExceeded without its contents being stored, and the connection is closed.",
 ["inputs", "histories", "fault_sequences"],
 "all sequences of up to 3 packets from a length alphabet (empty to beyond 64 KiB), all outcomes of the individual reads and writes up to the deviation bound, fresh or reused receivers, every size limit around the packet length",
 "Packet tests never use a socket: framing, partial reads, reuse of the receiving object and the size limit are not exercised at all.",
 ["include/frnetlib/Packet.h", "src/Socket.cpp", "src/TcpSocket.cpp"],
 [("length prefix and whole-frame read", "include/frnetlib/Packet.h: Packet::receive"), ("length prefix written at send", "include/frnetlib/Packet.h: Packet::send"), ("size limit", "include/frnetlib/Packet.h: Packet::receive, Socket::set_max_receive_size")],
 ["fr::Socket::send", "fr::Socket::receive"],
 [("buffer, buffer_read_index", "contents and read position", "Packet")])

prop("C04", "Whatever is packed is unpacked unchanged",
 "Every sequence of values of the supported types (booleans, integers of all widths, floating point, enumerations, strings, string views, pairs, vectors, maps, nested containers, user-defined packable types, iterator ranges, raw bytes) that is packed into a packet is extracted as exactly the same values in the same order, also into destination objects that already hold other values. Numbers are laid out in network byte order and strings and containers carry a 32-bit length, so independent peers agree on the bytes.",
 ["inputs", "histories"],
 "all sequences of up to 3 values over all supported types with boundary values, packed in each available way, extracted into fresh and into non-empty destinations",
 "The tests pack a few fixed values per type into one packet, always extract into fresh variables and never look at the wire bytes.",
 ["include/frnetlib/Packet.h", "include/frnetlib/NetworkEncoding.h", "include/frnetlib/Packetable.h"],
 [("operator<< / operator>> per type", "include/frnetlib/Packet.h"), ("byte-order helpers", "include/frnetlib/NetworkEncoding.h")],
 ["fr::Packet operators"])

prop("C05", "Extracting from a malformed packet is refused safely",
 "Extracting any type from a packet whose contents are arbitrary (truncated, too short, hostile length fields, invalid boolean bytes) either succeeds with values that are really present in the packet or throws std::out_of_range. It never reads or writes outside the packet or the destination, never allocates memory out of proportion to the packet's size, and leaves the packet usable.",
 ["inputs"],
 "all byte strings over a boundary alphabet up to the depth bound, every truncation of valid encodings, for every extractable type, through packet reuse after the failure",
 "One test extracts one integer too many; hostile lengths and truncated containers are never tried.",
 ["include/frnetlib/Packet.h"],
 [("bounds check before each read", "include/frnetlib/Packet.h: assert_bytes_remaining"), ("container length handling", "include/frnetlib/Packet.h: operator>>(vector/map/string)")],
 ["fr::Packet::operator>>", "fr::Packet::extract_raw"])

prop("C06", "Packet cursor, size and clear behave like a byte tape",
 "Over any sequence of packing, extracting, absolute and relative seeks, clearing and size queries, a packet behaves like a byte sequence with a read position: the position always lies between 0 and the size, seeks out of range stop at the nearest end whatever their magnitude, the remaining byte count is always size minus position, an extraction beyond the end throws and appended data never moves the position.",
 ["histories"],
 "all operation sequences up to the depth bound over an alphabet with boundary arguments including extreme seeks",
 "The tests walk a handful of fixed cursor sequences with small offsets.",
 ["include/frnetlib/Packet.h"],
 [("cursor clamping", "include/frnetlib/Packet.h: set_cursor, seek_cursor"), ("bounds check", "include/frnetlib/Packet.h: assert_bytes_remaining")],
 ["fr::Packet::get_cursor", "fr::Packet::size", "fr::Packet::get_bytes_remaining"],
 [("buffer_read_index", "read position including the frame header", "Packet")])

prop("C07", "HTTP request parsing does not depend on segmentation",
 "For every well-formed HTTP request whose body is absent or has a declared length, feeding its bytes to the parser in pieces of any sizes reports NotEnoughData until the message is complete and Success with its last byte, and yields the same method, URI, query arguments, headers, POST arguments, version and body as feeding it in one piece, namely those that were written in the request. Bytes that follow the declared body in the same piece never become part of the body. A malformed request (an unknown method, no URI or version, a length with anything but decimal digits in it) is refused with ParseError, however it is cut.",
 ["inputs", "histories"],
 "all requests of a token grammar (methods, URIs including awkward ones, queries, header sets, LF and CRLF line ends, body sizes around the limits), all ways to cut them into up to 4 pieces, byte-wise delivery, with and without trailing surplus",
 "The tests split one request at one place.",
 ["src/HttpRequest.cpp", "src/Http.cpp", "include/frnetlib/HttpRequest.h"],
 [("header terminator search and accumulation", "src/HttpRequest.cpp: HttpRequest::parse"), ("request line parsing", "src/HttpRequest.cpp: parse_header_uri"), ("argument lists", "src/Http.cpp: parse_argument_list"), ("header lines", "src/Http.cpp: parse_header_line")],
 ["fr::HttpRequest::parse and accessors"],
 [("header_ended, content_length, body", "parser state between pieces", "HttpRequest")])

prop("C08", "HTTP response parsing does not depend on segmentation",
 "For every well-formed HTTP response whose end is determined by a declared length, by chunked coding or by having no body, feeding its bytes to the parser in pieces of any sizes reports NotEnoughData until the message is complete and Success with its last byte, and yields the same status, version, headers and body as feeding it in one piece. The body is exactly the declared bytes, or for chunked coding exactly the concatenation of the chunks' data whatever bytes that data contains, and surplus bytes following the message never become part of it. A malformed response (one that does not begin with HTTP, with a status or length that has anything but decimal digits in it, with a chunk size that is no plain hexadecimal number (an extension may follow) or chunk data not followed by a line end) is refused with ParseError, and an impossible chunk size with HttpBodyTooBig, however it is cut.",
 ["inputs", "histories"],
 "all responses of a token grammar (status lines, header sets, LF and CRLF, declared lengths, all chunk layouts up to 3 chunks with extensions, upper and lower case and zero-padded sizes, data containing CRLF and digits), all cuts into up to 4 pieces, byte-wise delivery, surplus",
 "The tests cut one plain and one chunked response at fixed, convenient places.",
 ["src/HttpResponse.cpp", "src/Http.cpp", "include/frnetlib/HttpResponse.h"],
 [("incremental chunk decoder", "src/HttpResponse.cpp: HttpResponse::parse"), ("status line and headers", "src/HttpResponse.cpp: parse_header")],
 ["fr::HttpResponse::parse and accessors"],
 [("chunk_offset, header_ended, content_length", "decoder state between pieces", "HttpResponse")])

prop("C09", "HTTP parsers answer every byte sequence with a status",
 "For any bytes a peer may send, in any pieces, both HTTP parsers return a status: they never throw, crash, loop, read out of bounds or let the stored message grow beyond the configured header and body limits plus the piece being processed. A header longer than the header limit and a body longer than the body limit are refused with the corresponding status and within the limits are not; input that cannot be a request (response) is never reported as Success.",
 ["inputs"],
 "all token strings over an alphabet of HTTP fragments and malformed ones (huge, negative, non-numeric lengths and chunk sizes, missing parts, stray terminators) up to the depth bound, delivered whole and in pieces, and every message size around the limits",
 "The tests contain two malformed requests and two limit cases for the response; no malformed chunk or length is tried.",
 ["src/HttpRequest.cpp", "src/HttpResponse.cpp", "src/Http.cpp"],
 [("limit checks", "HttpRequest::parse, HttpResponse::parse"), ("number parsing", "HttpRequest::parse_header, HttpResponse::parse_header, HttpResponse::parse"), ("method check", "Http::string_to_request_type")],
 ["fr::HttpRequest::parse", "fr::HttpResponse::parse"])

prop("C10", "A constructed HTTP request parses back to the same request",
 "For every request assembled through the API (method, URI, query arguments, POST arguments or a body, headers, version), the text constructed from it is a self-delimiting HTTP request: parsing it, in one piece or many, gives Success exactly at its last byte and yields the same method, URI, arguments, headers, version and body. Missing mandatory headers are filled in exactly once and headers set by the user are never overridden or duplicated.",
 ["inputs"],
 "all combinations of methods, versions, URIs, up to 2 query arguments, 2 POST arguments, 3 headers (including the automatic ones) and body alphabets; printable values without the separators of their position",
 "Two fixed requests are round-tripped; the announced length, duplicates and delivery in pieces are not checked.",
 ["src/HttpRequest.cpp", "src/Http.cpp"],
 [("construct", "src/HttpRequest.cpp: HttpRequest::construct")],
 ["fr::HttpRequest::construct", "fr::HttpRequest::parse"])

prop("C11", "A constructed HTTP response parses back to the same response",
 "For every response assembled through the API (status, version, headers, body), the text constructed from it is a self-delimiting HTTP response: parsing it, in one piece or many, gives Success exactly at its last byte and yields the same status, version, headers and body. Missing mandatory headers are filled in exactly once and headers set by the user are never overridden or duplicated.",
 ["inputs"],
 "all status codes of the API, versions, up to 3 headers including the automatic ones, and bodies from an alphabet including line ends, NUL and bytes above 127",
 "Two fixed responses are round-tripped.",
 ["src/HttpResponse.cpp", "src/Http.cpp"],
 [("construct", "src/HttpResponse.cpp: HttpResponse::construct")],
 ["fr::HttpResponse::construct", "fr::HttpResponse::parse"])

prop("C12", "HTTP messages cross a connection intact",
 "Every HTTP request or response sent through a connected socket is put on the wire exactly once and completely, and the peer's receive returns Success with an equal message as soon as its last byte is available, for any sequence of short reads and writes, interruptions and would-blocks. If the connection ends, fails or times out inside a message the receive fails with a status other than Success, WouldBlock or Timeout; those two are returned only when nothing of the message was consumed.",
 ["inputs", "fault_sequences"],
 "messages from small to larger than the receive chunk, all outcome sequences of the individual reads and writes up to the deviation bound, blocking and non-blocking sockets, every truncation point",
 "No test sends or receives an HTTP message through a socket.",
 ["src/Http.cpp", "src/HttpRequest.cpp", "src/HttpResponse.cpp", "src/TcpSocket.cpp"],
 [("receive loop", "src/Http.cpp: Http::receive"), ("send loop", "src/Http.cpp: Http::send")],
 ["fr::Socket::send", "fr::Socket::receive"])

prop("C13", "WebSocket frames are encoded as RFC 6455 prescribes",
 "Every frame that is sent consists of exactly one RFC 6455 frame with the chosen opcode and final flag, the payload length in its shortest form, masked with the transmitted key when sent by a client and unmasked when sent by a server, and its payload is exactly the bytes that were set. Sending never alters the frame object, so sending the same frame again or reading its payload afterwards gives the same message.",
 ["inputs", "histories", "fault_sequences"],
 "all opcodes, final flags, roles, payload lengths around 0, 125/126, 4096, 65535/65536 and beyond, repeated sends, and write outcome sequences up to the deviation bound, decoded by an independent strict decoder",
 "No test touches WebSocket code.",
 ["src/WebFrame.cpp", "include/frnetlib/WebFrame.h"],
 [("frame encoder", "src/WebFrame.cpp: WebFrame::send")],
 ["fr::WebFrame::send"],
 [("payload, opcode, final", "frame contents", "WebFrame"), ("current_mask_key", "source of masking keys", "WebFrame")])

prop("C14", "WebSocket frames are received whole, checked and unmasked",
 "For every valid frame and any segmentation, interruption or delay of the stream, receiving returns Success with exactly the sender's payload, opcode and final flag and consumes exactly that frame. A frame with the wrong masking for its direction is refused, a payload longer than the receiver's limit is refused with MaxPacketSizeExceeded without being stored and the connection is closed, and a stream that ends or times out inside a frame is a failure; WouldBlock or Timeout is returned only when no byte was consumed.",
 ["inputs", "histories", "fault_sequences"],
 "sequences of up to 2 frames over all header forms (7, 16, 64-bit lengths, also non-minimal), roles, masks, lengths around the boundaries and limits, all read outcome sequences up to the deviation bound, fresh and reused frame objects",
 "No test touches WebSocket code.",
 ["src/WebFrame.cpp", "include/frnetlib/WebFrame.h", "src/Socket.cpp"],
 [("frame decoder", "src/WebFrame.cpp: WebFrame::receive"), ("exact reads", "src/Socket.cpp: Socket::receive_all")],
 ["fr::WebFrame::receive"])

prop("C15", "A WebSocket opens only after a genuine handshake, losing no data",
 "Over TCP and over TLS sockets alike, a WebSocket client asks for the upgrade with a key of 16 bytes in Base64 which no other connection of it uses. Its connect returns Success only if the server answered that request with status 101 and the accept value RFC 6455 derives from the key that was sent; any other answer, error or disconnection makes it fail. A WebSocket server accepts a connection normally only if the client sent an upgrade request, and then answers with that derived value. However the handshake and the data following it are segmented, frames sent right after the handshake are received completely by the other side.",
 ["inputs", "fault_sequences"],
 "all combinations of response status, accept value (right, wrong, for another key, missing), request method and upgrade header, handshake truncations, histories of up to 4 connections by two objects, and all segmentations (up to the deviation bound) of handshake plus following frames, both roles",
 "No test touches WebSocket code, and whether the first frame shares a segment with the handshake is a matter of timing.",
 ["include/frnetlib/WebSocket.h", "src/Base64.cpp", "src/Sha1.cpp", "src/Http.cpp"],
 [("client handshake", "include/frnetlib/WebSocket.h: WebSocket::connect"), ("server handshake", "include/frnetlib/WebSocket.h: WebSocket::set_descriptor")],
 ["fr::WebSocket::connect", "fr::TcpListener::accept with a WebSocket"])

prop("C16", "WebSocket sessions keep their role and close cleanly",
 "During a WebSocket session, over TCP and over TLS sockets alike, every frame an endpoint emits, including the close frame sent by disconnecting, is masked if and only if that endpoint is currently the client, and every frame sent is received by the other endpoint in order with its contents. Disconnecting a connected WebSocket emits exactly one close frame, which the peer receives as a Disconnect frame, and closes the connection; disconnecting again emits nothing, and the object can then be used for a new session in either role.",
 ["histories"],
 "all session histories up to the depth bound of text/binary/ping sends from either side, disconnects by either side, and re-use of the same objects as client or server",
 "No test touches WebSocket code.",
 ["include/frnetlib/WebSocket.h", "src/WebFrame.cpp"],
 [("disconnect", "include/frnetlib/WebSocket.h: WebSocket::disconnect"), ("role dependent masking", "src/WebFrame.cpp: WebFrame::send / receive")],
 ["fr::WebSocket"])

prop("C17", "Every descriptor is closed exactly once, and only by its owner",
 "Over any history of connecting, listening, accepting, disconnecting, re-using, moving and destroying sockets and listeners, with any of the underlying operating system calls failing, every descriptor the library obtained is closed exactly once, at the latest when its owner is destroyed or replaced, and the library never closes a descriptor it does not own at that moment.",
 ["histories", "fault_sequences"],
 "all operation histories up to the depth bound on two sockets and a listener, with every combination of failing calls up to the fault bound and 1-3 resolved addresses, descriptor numbers being re-used as the kernel does",
 "The tests open three listeners and one connection and no system call ever fails; leaks and double closes are invisible to them.",
 ["src/TcpSocket.cpp", "src/TcpListener.cpp", "include/frnetlib/TcpListener.h", "include/frnetlib/TcpSocket.h", "include/frnetlib/WebSocket.h"],
 [("close_socket and destructors", "src/TcpSocket.cpp, src/TcpListener.cpp"), ("connect loop", "src/TcpSocket.cpp: TcpSocket::connect"), ("listen loop", "src/TcpListener.cpp: TcpListener::listen"), ("accept hand-over", "src/TcpListener.cpp: TcpListener::accept")],
 ["descriptor ledger of a simulated kernel"],
 [("socket_descriptor", "owned descriptor or -1", "TcpSocket, TcpListener")])

prop("C18", "Connect, listen and accept report the truth",
 "connect returns Success if and only if the operating system completed a connection to one of the resolved addresses, having tried them in order until one succeeded within the given time limit, and listen returns Success if and only if a socket is bound and listening; accept returns Success if and only if a connection was taken over, with the peer's address recorded. After a failure the object reports that it is not connected, and a later attempt on the same object behaves as on a fresh one.",
 ["histories", "fault_sequences"],
 "1-3 resolved addresses, every outcome of each underlying call (immediate success, in-progress then success, refusal, timeout, failing calls), repeated attempts on the same object",
 "The tests make one successful loopback connection; refused, timed-out or failing alternatives never occur.",
 ["src/TcpSocket.cpp", "src/TcpListener.cpp"],
 [("address loop", "src/TcpSocket.cpp: TcpSocket::connect"), ("bind loop", "src/TcpListener.cpp: TcpListener::listen"), ("accept", "src/TcpListener.cpp: TcpListener::accept")],
 ["fr::TcpSocket::connect", "fr::TcpListener::listen", "fr::TcpListener::accept", "connected()"])

prop("C19", "Blocking mode and timeouts always match the live connection",
 "Whenever a socket is connected, the blocking mode it reports is the mode its descriptor is really in: a fresh connection or accepted client starts blocking whatever the object was used for before, a successful mode change takes effect and a failed one changes nothing. Receive and send timeouts, set at any time before or after connecting, are in force with their exact value on the current connection and on every later one, and small writes are never delayed by Nagle's algorithm.",
 ["histories", "fault_sequences"],
 "all histories up to the depth bound of mode changes, timeout changes, connects, accepts, disconnects and failed attempts, with failing fcntl calls",
 "No test changes mode or timeouts.",
 ["src/TcpSocket.cpp", "include/frnetlib/Socket.h", "include/frnetlib/NetworkEncoding.h"],
 [("mode switch", "include/frnetlib/NetworkEncoding.h: set_unix_socket_blocking"), ("option application", "src/TcpSocket.cpp: TcpSocket::reconfigure_socket")],
 ["get_blocking()", "descriptor flags and options of a simulated kernel"],
 [("is_blocking", "believed mode", "TcpSocket"), ("socket_read_timeout, socket_write_timeout", "requested timeouts", "Socket")])

prop("C20", "The selector reports exactly the ready registered sockets",
 "After any history of adding, removing, receiving, peer activity and disconnection, including sockets that are closed while registered and descriptors that are re-used by new sockets, waiting returns exactly the registered open sockets that have pending input (held by the operating system: what a TLS socket has decrypted already does not count), a pending connection or a disconnected peer (if there are more than 100 then at least 100 of them per call, and none forgotten), each with the opaque value given when it was added. Removing a registered socket returns its opaque value and ends its reporting even if it has been closed meanwhile, without affecting any other socket, and removing a stranger does nothing; adding a closed or already registered socket is rejected without effect, and one that was closed and opened again is reported only after being added anew.",
 ["histories"],
 "all operation histories up to the depth bound over 3 socket objects and a listener on real descriptors with controlled re-use, plus bulk scenarios beyond 100 ready sockets",
 "The selector is not exercised by any test.",
 ["src/SocketSelector.cpp", "include/frnetlib/SocketSelector.h"],
 [("registration table and epoll", "src/SocketSelector.cpp: add, wait, remove")],
 ["fr::SocketSelector::wait", "fr::SocketSelector::remove"],
 [("added_sockets", "registered sockets with opaque values and descriptor", "SocketSelector")])

prop("C21", "URLs are split and rebuilt correctly",
 "For every URL composed of an optional scheme, a host (a name or an IPv4 address), an optional port, an optional path, an optional query and an optional fragment, each using any of the characters legal in it (such as ':' and '//' in the query), parsing yields exactly these components, with the scheme's well-known port if none is given, whatever the object held before; a URI without a host yields its path, query and fragment, and a single word is a path. Rebuilding a URL from its components and parsing the result gives the same components (unless it has only a host, which reads as a path), the URI is path, query and fragment joined, and parsing never fails or crashes on any text.",
 ["inputs", "histories"],
 "all combinations of component alphabets with the separators legal in each, re-parsing into used objects, and all strings over the separator alphabet up to the depth bound for totality",
 "The tests parse about fifteen friendly URLs, each with a fresh object.",
 ["src/URL.cpp", "include/frnetlib/URL.h"],
 [("component splitting", "src/URL.cpp: URL::parse"), ("rebuilding", "include/frnetlib/URL.h: get_url, get_uri"), ("scheme table", "src/URL.cpp: scheme_string_map")],
 ["fr::URL accessors"])

prop("C22", "URL encoding is lossless and safe, decoding is total",
 "URL-encoding any byte string yields only characters that are safe in a query argument, and decoding that yields the original string; decoding accepts percent escapes with upper and lower case digits and '+' for a space. Decoding never fails or reads out of bounds, and leaves a percent sign that does not start a complete escape as it is.",
 ["inputs"],
 "all byte strings of length up to 2, all strings up to the depth bound over a boundary alphabet ('%', '+', hex digits of both cases, separators, bytes above 127)",
 "One fixed string is encoded and decoded, with upper case escapes only.",
 ["src/Http.cpp"],
 [("url_encode", "src/Http.cpp: Http::url_encode"), ("url_decode", "src/Http.cpp: Http::url_decode")],
 ["fr::Http::url_encode", "fr::Http::url_decode"])

prop("C23", "Base64 and SHA-1 are correct for every input length",
 "Base64 encoding of any byte string is its RFC 4648 encoding with padding, and the SHA-1 digest of any byte string is its FIPS 180 digest, for every length including zero and all block boundaries, whatever was computed before.",
 ["inputs", "histories"],
 "all byte strings of length up to 2 and all strings of length 3 over a boundary alphabet for Base64; all lengths from 0 to several blocks with several fillings and contents for SHA-1",
 "Neither has a test.",
 ["src/Base64.cpp", "src/Sha1.cpp", "include/frnetlib/Sha1.h"],
 [("encoder and remainder handling", "src/Base64.cpp"), ("padding and block transform", "src/Sha1.cpp")],
 ["fr::Base64::encode", "fr::Sha1::sha1_digest"])

prop("C24", "Objects in different threads do not interfere",
 "When threads use distinct library objects at the same time (sending and receiving frames, packets and HTTP messages on their own sockets, waiting on their own selectors, parsing, encoding, converting), every interleaving gives each thread the results it would get alone, without data races. One thread sending and another receiving on the same TCP or web socket also do not disturb each other, and shutdown() on a socket or listener makes a receive or accept that blocks in another thread return without success.",
 ["schedules"],
 "all pairs of 22 operations over the whole library, in both orders, and pairs and triples of threads that work together; every schedule up to the preemption bound, with points at synchronisation, system calls and accesses to global variables, and a happens-before race check on every execution",
 "The tests run at most two threads once, under whatever schedule the machine happens to choose.",
 ["src/WebFrame.cpp", "src/SocketSelector.cpp", "src/Http.cpp", "src/URL.cpp", "include/frnetlib/Http.h", "include/frnetlib/NetworkEncoding.h"],
 [("static mask key", "src/WebFrame.cpp: current_mask_key"), ("thread-local event buffer", "src/SocketSelector.cpp: wait"), ("read-only tables", "src/Http.cpp, src/URL.cpp, include/frnetlib/Http.h")],
 ["results of the operations in each thread"])

prop("C25", "TLS connections are established only with a verified peer",
 "With certificate verification on, which is the default, connecting an SSL socket returns Success only if the handshake completed and the server's certificate chains to a trusted certificate and matches the host name that was asked for; otherwise it fails. With verification switched off a completed handshake suffices, and any interruption or failure of the handshake makes connect or accept fail with a status, leaving neither endpoint reporting a usable connection. Loading trusted certificates reports success exactly if there are some and all of them could be read.",
 ["configurations", "fault_sequences"],
 "all combinations of trusted, untrusted and empty trust stores, matching and other host names, verification on/off/default, server certificates, and every handshake call outcome up to the fault bound, with a real TLS stack",
 "No test touches SSL code.",
 ["src/SSLSocket.cpp", "src/SSLListener.cpp", "include/frnetlib/SSLContext.h"],
 [("verification mode and host name", "src/SSLSocket.cpp: SSLSocket::connect"), ("server side handshake", "src/SSLListener.cpp: SSLListener::accept")],
 ["fr::SSLSocket::connect", "fr::SSLListener::accept"])

prop("C26", "TLS send and receive carry the stream faithfully",
 "Over an established SSL socket the bytes accepted by the TLS layer are exactly the caller's data, each once and in order, whatever partial writes, want-read/want-write answers or errors the TLS layer gives, with Success reported exactly when all are accepted and a retry after WouldBlock continuing correctly. Receives return exactly the stream's bytes with their count, report end of stream as Disconnected, return WouldBlock when the socket is non-blocking and has nothing to read, and a mode change really switches the descriptor.",
 ["inputs", "fault_sequences"],
 "all outcome sequences of the TLS layer's read and write calls up to the deviation bound, blocking and non-blocking sockets, raw and framed messages",
 "No test touches SSL code.",
 ["src/SSLSocket.cpp", "include/frnetlib/SSLSocket.h"],
 [("write loop", "src/SSLSocket.cpp: SSLSocket::send_raw"), ("read loop", "src/SSLSocket.cpp: SSLSocket::receive_raw"), ("mode switch", "src/SSLSocket.cpp: SSLSocket::set_blocking")],
 ["fr::SSLSocket::send_raw", "fr::SSLSocket::receive_raw", "fr::SSLSocket::set_blocking"])

prop("C27", "HTTP field stores and conversions are consistent",
 "Headers, query and POST arguments behave as maps whose names ignore case: what is set under a name is what any spelling of that name reads, existence queries agree and never create entries, and stores do not affect each other. The conversions between methods, transfer encodings, socket statuses and their names are total and consistent (a method's name converts back to it, a proper prefix of one is Partial, anything else not starting with one is Unknown), and the MIME type of a file name depends only on its extension: the one listed for it, or the generic binary type for unknown ones.",
 ["inputs", "histories"],
 "all operation histories up to the depth bound over names that differ only in case, and all strings up to the depth bound over the letters of the method names and encodings",
 "The tests convert a few dozen fixed strings and use each store in one order.",
 ["include/frnetlib/Http.h", "src/Http.cpp", "src/Socket.cpp"],
 [("case folding", "src/Http.cpp: header, get, post, *_exists"), ("conversions", "include/frnetlib/Http.h: string_to_request_type, request_type_to_string, string_to_transfer_encoding"), ("status names", "src/Socket.cpp: status_to_string"), ("MIME table", "src/Http.cpp: get_mimetype")],
 ["fr::Http accessors and conversions", "fr::Socket::status_to_string"])

prop("C28", "Without a connection every operation fails cleanly",
 "On a socket that has no connection, because it was never connected, a connection attempt or opening handshake failed, it was disconnected in whatever mode and state, it was closed for a message over the limit, or its descriptor was taken away, every send, receive and accept of any kind returns promptly with a failing status (never Success, WouldBlock, Timeout or NotEnoughData), transfers and alters nothing, and touches no descriptor of anyone else; connected() is false and the descriptor is -1. The same holds for a listener that is not listening, whose failing accept also leaves the socket it was given as it was. Afterwards the same object can connect or listen again and works normally.",
 ["histories"],
 "all ways to be without a connection, twice in a row, followed by all sequences of 21 operations up to the depth bound and a new connection, for TCP, TLS and web sockets and listeners, with descriptor numbers re-used by strangers and with descriptor 0",
 "The tests never use a socket that has no connection.",
 ["src/Socket.cpp", "src/TcpSocket.cpp", "src/SSLSocket.cpp", "src/TcpListener.cpp", "src/SSLListener.cpp", "include/frnetlib/WebSocket.h"],
 [("connection check before sending", "src/Socket.cpp: Socket::send"), ("error statuses", "src/TcpSocket.cpp: TcpSocket::send_raw, TcpSocket::receive_raw"), ("release of the descriptor and session", "src/SSLSocket.cpp: SSLSocket::close_socket, SSLSocket::set_descriptor"), ("accept", "src/TcpListener.cpp: TcpListener::accept")],
 ["fr::Socket::send", "fr::Socket::receive", "fr::Socket::send_raw", "fr::Socket::receive_raw", "fr::Listener::accept"])

prop("C29", "Messages, packets, frames and URLs are values",
 "At any time, also in the middle of parsing a message or extracting from a packet, a copy of a packet, HTTP request, HTTP response, web frame or URL, and an object that was assigned from another, behave from then on exactly as the original would, and the two never influence each other, even when one is destroyed. Moving, swapping and storing in growing containers hand the value over completely, self-assignment changes nothing, and an object that was moved from can be given a new value; a packet that was moved from is a usable packet at once, which is sent as exactly what it holds.",
 ["histories"],
 "all histories up to the depth bound over two variables of each type, of 5 to 9 operations per type and of 9 kinds of copying, assigning, moving and swapping, each followed by use of what was moved from",
 "The tests never copy an object in use and never use one that was moved from.",
 ["include/frnetlib/Packet.h", "include/frnetlib/Http.h", "include/frnetlib/HttpRequest.h", "include/frnetlib/HttpResponse.h", "include/frnetlib/WebFrame.h", "include/frnetlib/URL.h"],
 [("packet buffer with header space", "include/frnetlib/Packet.h: Packet(Packet &&), Packet::clear"), ("parser state", "include/frnetlib/HttpRequest.h, include/frnetlib/HttpResponse.h"), ("frame state", "include/frnetlib/WebFrame.h")],
 ["accessors and results of every operation, on the copy and on the original"])

prop("C30", "Memory is given back",
 "Whatever happens to sockets, WebSockets, listeners, selectors, TLS contexts and messages - connections that succeed, fail at any step or are taken over, handshakes that are refused or cut off, certificates and keys that are missing, unreadable or only partly readable, malformed and oversized messages, calls that throw - all memory the library obtained on the way, from the heap, from name resolution or from the TLS layer, has been given back once the objects are gone; and an object that lives on does not hold more and more memory with the number of operations it has done.",
 ["histories", "fault_sequences"],
 "all histories up to the depth bound over 32 operations of a socket and of a WebSocket, plain and TLS, 9 of a listener and 6 of a selector, with failing system calls; all pairs of 14 good, bad, missing and partly good certificate and key files; cycles of two operations repeated 32 to 64 times",
 "The tests check no memory, and only fail in a few of the ways in which a connection can fail.",
 ["src/TcpSocket.cpp", "src/TcpListener.cpp", "src/SSLSocket.cpp", "src/SSLListener.cpp", "src/SocketSelector.cpp", "include/frnetlib/WebSocket.h", "include/frnetlib/SSLContext.h"],
 [("addresses of a name", "src/TcpSocket.cpp, src/TcpListener.cpp: getaddrinfo"), ("TLS sessions and configurations", "src/SSLSocket.cpp, src/SSLListener.cpp"), ("registered sockets", "src/SocketSelector.cpp")],
 ["heap blocks that are still allocated when all objects have been destroyed, or after more rounds of the same operations"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
