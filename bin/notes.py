SIM = "exhaustive deviation-bounded exploration of the real code over a simulated socket kernel"
TRUST = " Trusted: the simulated kernel's answers are those Linux can give; behaviours beyond the stated sizes and deviation bounds are not covered."
TRUST2 = " Trusted: the reference reading in the harness; inputs beyond the stated alphabets, sizes and depths are not covered."
ENUM = "exhaustive enumeration of inputs within bounds on the real code against an independent reference model"
SCHED = "exhaustive schedule exploration of the real code up to a preemption bound, with dynamic race detection on every schedule"
OPS = "exhaustive enumeration of operation sequences on the real code in lock step with a reference model"
SEG = "exhaustive enumeration of segmentations on the real code against an independent reference model"
NOTES = {
 "C01": (SIM, "Every sequence of kernel answers (full and short writes, EINTR, EAGAIN, errors) with at most 3 (thorough: 4-5) deviations, all compositions for up to 4 bytes, large sizes up to 70000 with short writes, both modes, retried until finished. Also every size from 1 upwards in steps of one up to some hundreds, and very long histories on one socket. Storms: every transfer interrupted or refused 300 or 70,000 times before it happens, or moving a single byte. Single calls of 2 and 4 GiB (thorough: up to 5)." + TRUST),
 "C02": (SIM, "Every sequence of kernel answers to reads with at most 2-3 (thorough 3-4) deviations, all compositions for small streams, all arrival schedules of a slow peer, both modes, raw and exact-length receive. Also every size up to some hundreds. Storms: every transfer interrupted or refused 300 or 70,000 times before it happens, or moving a single byte. Single calls of 2 and 4 GiB (thorough: up to 5). Errors of three kinds among the answers; the status tells an error from an end." + TRUST),

 "C03": (SIM, "Every placement of 2 (thorough 3) deviations (short reads and writes, EINTR, EAGAIN, end of stream, resets) over packet sequences of sizes 0..70000, receiving packets fresh and used in 5 ways, blocking / non-blocking / with timeout, every truncation, limits one below, at and above; hostile 32-bit lengths. Also every payload size up to some hundreds and 70,000 packets in a row. Storms: every transfer interrupted or refused 300 or 70,000 times before it happens, or moving a single byte. Run twice, over TcpSocket and over SSLSocket (TLS records stood in for by the simulated kernel; the real TLS library is under C25 and C26)." + TRUST),
 "C04": (ENUM, "All sequences up to length 3 (thorough 4) over 30+ typed items with boundary values and dirty destinations; wire layout compared with an independent encoder. Also containers, strings and raw bytes of every size up to 300 (thorough 3000) and around 2^15, 2^16, 2^17 and 10^6." + TRUST2),
 "C05": (ENUM, "All byte strings over a small alphabet up to the stated length, and every truncation and single or double field corruption of well-formed packets, for every extractable type; memory checked with AddressSanitizer and an allocation ledger." + TRUST2),
 "C06": (OPS, "All sequences of tape operations up to depth 4 (thorough 5-6) with arguments including 2^32 and 2^64 neighbourhoods, compared with a list-of-bytes model after every step; also on packets of 4000 to 70000 bytes." + TRUST2),
 "C07": (SEG, "Requests from a grammar; every split into two and three pieces, every composition for short ones, byte by byte, compared with an independent reading of what was written; malformed requests and neighbours of every method name must be refused in every cut. Also every length of every part up to 600 (thorough 1500), and any number of fields up to 140 and around powers of 2 and 10. Also every string of up to 4 (thorough 5) characters over digits, signs, blanks and letters where a number stands. Also declared lengths around every power of two from 2^6 to 2^64 with less delivered: never complete." + TRUST2),
 "C08": (SEG, "Responses from a grammar with declared lengths, chunked coding and body-less statuses; every split into two and three pieces, byte by byte, with and without surplus bytes; malformed responses must be refused in every cut. Also every length of every part and of a chunk up to 600 (thorough 1500), any number of chunks up to 600 and of fields up to 140. Also every string of up to 4 (thorough 5) characters over digits, signs, blanks and letters as length, status and chunk size. Also declared lengths and chunk sizes around every power of two from 2^6 to 2^64 with less delivered: never complete." + TRUST2),
 "C09": (ENUM, "All token sequences over HTTP token alphabets up to the stated depth, all in one, two pieces and byte by byte, with small limits compiled in (every size around the limit) and the default limits; AddressSanitizer, step and memory monitors." + TRUST2),
 "C10": (ENUM, "All combinations of method, URI, arguments, headers, body and version from the stated sets, construct then strict independent read-back and parser read-back in pieces. Also every length of every part up to 600 (thorough 2000), any number of fields up to 120, and bodies up to 2^20 around powers of 2 and 10. Every status name against its registered number." + TRUST2),
 "C11": (ENUM, "All combinations of status, version, headers and body from the stated sets, construct then strict independent read-back and parser read-back in pieces. Also every length of every part up to 1200 (thorough 3000), any number of headers up to 120, and bodies up to 2^20 around powers of 2 and 10. Every status name against its registered number." + TRUST2),
 "C12": (SIM, "HTTP requests and responses through TcpSocket with every placement of 2 (thorough 3) short reads/writes, interruptions, would-blocks, ends and resets, and every truncation; bodies up to 3 MB. Also every body and header size up to some hundreds and long conversations. Storms: every transfer interrupted or refused 300 or 70,000 times before it happens, or moving a single byte. Run twice, over TcpSocket and over SSLSocket (TLS records stood in for by the simulated kernel; the real TLS library is under C25 and C26). Also a sender that stops for good after any number of bytes: nothing is taken for complete." + TRUST),
 "C13": (SIM, "Every opcode, final flag and role with payload lengths around every boundary of the length encoding (0..126, 127, 65535, 65536, 70000), repeated sends of one object, 70,000 frames in a row, and every placement of up to 3 short writes, interruptions, would-blocks and errors; the wire read back by an independent RFC 6455 reader. Storms: every transfer interrupted or refused 300 or 70,000 times before it happens, or moving a single byte. Run twice, over TcpSocket and over SSLSocket (TLS records stood in for by the simulated kernel; the real TLS library is under C25 and C26)." + TRUST),
 "C14": (SIM, "Frames and fragmented messages of all opcodes and lengths from an independent RFC 6455 writer, every header byte pattern over the length and flag alphabet, every arrival split and truncation, every placement of up to 3 read faults, masked and unmasked for both roles, receive limits one below, at and above. Also every payload size and every limit, and long histories. Storms: every transfer interrupted or refused 300 or 70,000 times before it happens, or moving a single byte. Run twice, over TcpSocket and over SSLSocket (TLS records stood in for by the simulated kernel; the real TLS library is under C25 and C26). Also every size limit with every opcode." + TRUST),
 "C15": (SIM, "For WebSockets over TcpSocket and over SSLSocket (transparent TLS layer): the keys of all histories of up to 4 connections; all handshake requests and responses built from alphabets of header names, spellings, keys, statuses and orders, with frames coalesced behind them at every split, every truncation, both roles, library against reference peer and library against itself, with up to 2 faults. Also accept values of earlier attempts, values one character off, keys of any length and long requests and answers, other methods, every spelling of the protocol's name and words near it. Storms: every transfer interrupted or refused 300 or 70,000 times before it happens, or moving a single byte." + TRUST),
 "C16": (SIM, "For WebSockets over TcpSocket and over SSLSocket (transparent TLS layer): all histories up to depth 4 (thorough 5) of sends, receives, pings, peer frames, closes, disconnects, changes of mode and re-connections for both roles, every byte put on the wire read back frame by frame, with faults. Also hundreds of frames in one session and hundreds of sessions on one object. Storms: every transfer interrupted or refused 300 or 70,000 times before it happens, or moving a single byte." + TRUST),
 "C17": (SIM, "All histories up to depth 3-4 of connecting, listening, accepting, moving, re-using and destroying two sockets and two listeners, adopting a descriptor or being given the own one again, every system call failing (up to 2 failures per history), 1-3 resolved addresses with every outcome and error number, descriptor numbers re-used lowest first and including 0; ledger of descriptors." + TRUST),
 "C18": (SIM, "All combinations of outcomes of 1-3 resolved addresses (at once, later, refused, never, unreachable), time limits, repeated attempts on the same object, each with up to 2 failing or interrupted calls. Time limits also hold when periodic signals interrupt every wait (simulated clock)." + TRUST),
 "C19": (SIM, "All histories up to depth 4-5 of connects, accepts, mode and timeout changes, disconnects and attachments with failing calls; descriptor flags and options of the simulated kernel compared with what the object reports after each step. TCP and TLS sockets." + TRUST),
 "C20": (OPS, "All histories up to depth 4-6 (thorough 5-8) of opening, closing, re-opening, replacing, adding, removing, peer input and peer disconnection over 1-3 sockets, a listener and 1-2 selectors on real descriptors and real epoll (lowest number re-used first), observed after every step or only at the end, plus bulk scenarios up to 350 ready sockets and failing epoll calls. Also many lives of one object (destroyed and made again at the same address) and duplicate or null opaque values." + TRUST2),
 "C21": (ENUM, "All combinations of 17 schemes, 8 hosts, 6 ports, 17 paths, 13 queries and 12 fragments; all strings up to length 5-6 over the characters legal in each component; all strings up to length 7-8 over the separators and all token sequences, each parsed into fresh and used objects and rebuilt; the tables and the comparison completely. Also components of every length up to 420 (thorough 1500) and up to 70,000." + TRUST2),
 "C22": (ENUM, "All byte strings of length up to 2 (thorough 3), all escapes with any two digits in every context, all strings up to length 4-5 over 20 boundary characters and up to 7-8 over '%', '+' and digits; every two-byte argument through a request and back." + TRUST2),
 "C23": (ENUM, "All byte strings up to length 2 (thorough 3), every length from 0 to 700 (thorough 4200) with 8 fillings, every single bit flipped at every length around a block border, all sequences of lengths up to depth 3-4, and lengths beyond 2^32 bits, against independent implementations." + TRUST2),
 "C24": (SCHED, "Real threads under a deterministic scheduler, one fresh process per schedule: all pairs (self-pairs included, both orders) of 22 operations covering frames, packets, raw transfers, modes, HTTP parsing and building, URL coding, MIME, URLs, digests, names, selectors, connecting, accepting and TLS objects, at every single (thorough: every two) preemption at synchronisation and system calls and at every single one at accesses to global variables; threads sharing one socket, exchanging packets, HTTP messages, web frames and TLS records, and waking each other by shutdown, at 1-3 preemptions. Every execution is checked for unordered accesses (byte-wise vector clocks), deadlock, and for the results each thread has alone. Code compiled elsewhere (libc, libstdc++ binaries, mbedtls) is not instrumented: its hidden buffers are covered only for a list of libc functions; a mbedtls context shared by threads is outside the property."),
 "C25": (SIM, "Real mbedtls on both ends in one process: all of 17 server certificates x 10 trust stores (memory and file) x 16 host names (localhost and addresses among them) x 5 settings, histories of 3 attempts on one object; every placement of 1-2 (thorough 2-3) deviations in the handshake's reads and writes, one altered byte of every record, every cut, failing system and TLS calls, for client and listener, fresh and used objects. Bundles of trusted certificates with damaged, repeated and missing entries." + TRUST),
 "C26": (SIM, "Two parts. Over a transparent TLS layer every placement of 2-3 (thorough 3-4) of its answers (partial, want-read, want-write, fatal) and of the kernel's (short, EINTR, EAGAIN, errors, end of stream), which is then validated against the same harness over real mbedtls with 1-2 (thorough 2-3); client and accepted sockets, both modes, sizes 0..40000, fresh and re-used objects; mode and timeout histories to depth 4-5. Storms: every transfer interrupted or refused 300 or 70,000 times before it happens, or moving a single byte." + TRUST),
 "C27": (OPS, "All histories up to depth 3-4 (thorough 4-5) of setting, reading, querying, copying, assigning and moving over names differing in case and over all three stores; all strings up to length 5-7 over the letters of the methods, encodings and extensions, every near miss of every name, every status with every error number, the whole MIME table. Also any number of fields up to 300 (thorough 1200), names and values of any length up to that and with any byte." + TRUST2),
 "C28": (SIM, "19 ways for a socket to have no connection and 8 for a listener not to listen, one after the other, each followed by all sequences of 21 operations (raw, packets, HTTP, frames, both directions, modes, closing, failing attempts) up to depth 1-4 (thorough 2-6), then a new connection and a message in each direction; TCP sockets, TLS sockets over a transparent TLS layer and over real mbedtls, web sockets over TCP and the transparent layer; strangers take over the descriptor numbers, including 0." + TRUST),
 "C29": (OPS, "All histories up to depth 3-4 (thorough 4-5) over two variables each of packets, requests, responses, client and server frames and URLs: 5 to 9 operations per type (parsing in pieces, extracting, sending, receiving, changing) and 9 kinds of copies, assignments, moves and swaps, with and without use of what was moved from; after every step each variable is compared with a fresh object to which the same operations were applied." + TRUST2),
 "C30": (SIM, "All histories up to depth 2-4 (thorough 3-5) over 32 operations of a socket and a WebSocket (every way a connection attempt, an opening or TLS handshake and a message can end), 9 of a listener and 6 of a selector, with failing system calls up to the bound, over plain sockets, over a stand-in TLS layer that owns a block per session, and over mbedtls itself; all pairs of 14 certificate and key files; and cycles of two operations (thorough three) repeated 32 to 64 times with content that differs from round to round.  A ledger of all heap blocks obtained between entering and leaving the library, kept by hooks of the allocator, is empty once the objects are destroyed; if it isn't, the same history runs again, so that what is obtained once and for all is no alarm; and what living objects hold doesn't keep growing." + TRUST2),
}
