import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,observe=None):
    assert len(title)<=80,title
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

T="The unit tests only touch containers (list, queue, tree, array, hash); no test opens a connection, so none of this is exercised today. "

p("C01","Tunnelled bytes arrive complete, in order and unaltered, and never get stuck",
"Once a tunnel session is established, in server mode and in client mode, the bytes each end receives are always an in-order, unduplicated, unaltered prefix of the bytes the other end sent. If one end sends data and then closes while the other keeps reading, everything sent before the close is delivered before the other end sees the end of the stream. Data never stays inside the proxy while its receiver is able to accept it, even when the opposite direction is blocked.",
["schedules","histories","fault_sequences"],
"every split of both byte streams into arrivals, every point at which a send is cut short or refused, every order and batching of readiness events, either end closing first, sizes below, at and above the relay buffer",
T+"The property quantifies over interleavings of two sockets, a TLS layer and an edge-triggered event loop.",
["src/app/tls_tunnel_s.c","src/app/tls_tunnel_c.c","src/common/net_send.c","src/common/ssl.c","src/common/event.c"],
[("relay receive/send pairs for both directions","src/app/tls_tunnel_s.c tls_tunnel_traffic_*"),("TLS read/write adaptors and event re-registration","src/common/ssl.c ssl_read/ssl_write")],
[("per-connection relay buffer","bytes read from one end and not yet accepted by the other","con_t.meta"),("end-of-stream flags","one end has ended; flush then close","tls_tunnel_session_t")],
["bytes accepted by each peer socket","end of stream seen by each peer"])

p("C02","Only a peer presenting a registered key gets a tunnel, whatever came before",
"The tunnel server makes an outbound connection or a name lookup for a peer only if the first bytes of that same connection are the protocol's magic value followed by an authorization key equal to one of the registered keys. Every registered key of one to sixteen bytes is accepted. The decision does not depend on how the header is segmented, on the unused part of the header, or on what any other connection presented.",
["inputs","histories","schedules"],
"all authorization headers over a small alphabet around the registered keys (prefixes, suffixes, extensions, substrings, non-ASCII bytes, wrong magic), all pairs/triples of successive attempts, all segmentations",
T+"The failure needs a particular earlier attempt or a particular near-miss key.",
["src/app/tls_tunnel_s.c","src/common/aho_corasick.c"],
[("authorization header check","src/app/tls_tunnel_s.c tls_tunnel_s_auth_chk"),("key set lookup","src/common/aho_corasick.c")],
[("key set automaton","registered keys plus matching position","ezac_ctx_t")],
["outbound connects and DNS queries issued for the session"])

p("C03","A SOCKS5 CONNECT reaches exactly the requested address and port",
"For an authorised client that sends a SOCKS5 greeting and, after its answer, a CONNECT request, the server connects to exactly the IPv4 address, or to an address resolved for exactly the domain name, and to exactly the port in the request, however the bytes are segmented. It answers the greeting with version 5 and method 0, and sends one ten-byte success reply, only after the outbound connection is established, before any relayed byte. A request with another version, command or address type, a greeting with another version or no methods, or an empty domain name is refused by closing, with no outbound connection.",
["inputs","schedules","histories"],
"all greetings and requests over boundary values of every field (method counts 0..255, domain lengths 0..255, all versions/commands/address types, all ports with each byte in {0,1,80,255}), every one- and two-cut segmentation, connect success, refusal, delay",
T+"Parsing is a byte-wise state machine whose result must not depend on segmentation.",
["src/app/socks5.c","src/app/tls_tunnel_s.c"],
[("greeting/request state machines","src/app/socks5.c s5_p1_req, s5_p2_req"),("destination selection and reply","src/app/socks5.c s5_cup_addr, s5_cup_connect_chk, s5_p2_rsp")],
[("parser state and collected fields","s5_t","src/app/socks5.h")],
["connect() destination","DNS query name","bytes sent to the client"])

p("C04","However a session ends, both legs close and everything it held is released once",
"However and whenever a connection or tunnel session ends (peer close or reset at any phase, refused or failed connect, failed handshake, failed or late name lookup, timeout, refused allocation, failing system call), the process never uses or releases an object twice or after its release, and closes both legs. Once all sessions have ended, every descriptor, buffer, connection object and timer they took has been given back, and the process still serves new sessions.",
["fault_sequences","schedules","histories","crash_points"],
"every single fault and every pair of faults (reset, end of stream, allocation failure, socket-call failure, timer expiry) at every step of server-mode, client-mode, HTTP, HTTPS and shared-port sessions",
T+"Lifetimes are manual and spread over callbacks; the failing orders need a fault between two particular callbacks.",
["src/app/tls_tunnel_s.c","src/app/tls_tunnel_c.c","src/app/socks5.c","src/app/webser.c","src/common/net.c","src/common/ssl.c","src/dns/dns.c"],
[("connection release","src/common/net.c net_free, net_free_direct"),("session release callbacks","tls_ses_release_cdown, web_release_c"),("pending lookup release","src/dns/dns.c dns_free")],
None,["allocator calls","open/close of descriptors","timer queue"])

p("C05","Client mode sends nothing but TLS, one exact auth header, then the local bytes",
"In client mode the proxy writes to the tunnel server only inside an established TLS session: never a byte of the local application's data in clear or before the handshake has completed. The first application bytes are exactly one 36-byte authorization header carrying the configured key, and after it come the local application's bytes, including those received while the connection was being set up, in order and exactly once. If the server side cannot be set up, the local connection is closed.",
["schedules","inputs","fault_sequences"],
"every interleaving of local arrivals with connect, handshake and header write, blocked writes at every byte, keys of length 0..31, early local data up to and beyond the buffer, failures at each stage",
T+"Early data races with a multi-step connection setup.",
["src/app/tls_tunnel_c.c","src/app/tls_tunnel_s.c","src/common/ssl.c","src/common/net.c"],
[("early data buffering","src/app/tls_tunnel_c.c tls_tunnel_c_recv"),("handshake then header","tls_tunnel_c_connect_ssl, tls_tunnel_c_auth_build/send")],
None,["wire bytes on the server-side socket"])

p("C06","Every readiness event reaches its live connection once and no other",
"Each readiness event the kernel reports in one batch is delivered exactly once to the handler its connection has installed at delivery time, if that connection is still open, whatever the handlers run earlier in the batch do: close themselves, close others, open new connections, change handlers or interest. A closed connection never receives an event, also not when its memory or descriptor has been reused, and closing one connection never loses an event of another.",
["schedules","histories"],
"all sequences of up to three event batches over up to four connections, all subsets/orders/read-write masks per batch, all handler actions from a menu (nothing, close self, close another, change handlers, open new)",
T+"The failing cases need two connections in one batch and a stale position from an earlier batch.",
["src/common/event.c","src/common/net.c"],
[("batch collection and dispatch","src/common/event.c ev_epoll_loop, ev_loop"),("cancellation on close","src/common/event.c ev_free")],
[("batch slots","events collected in this iteration","g_event_ctx->evs, ev_t.idxr/idxw")],
["handler invocations"])

p("C07","Timers fire once, never early, in deadline order, and never after cancel",
"A timer's callback runs at most once per arming, never before its deadline, never after the timer has been cancelled or re-armed to a later time, and at every poll all due timers run, in order of deadline. The wait time handed to the event loop never exceeds the time to the nearest armed deadline, for every history of arming, re-arming, cancelling and expiry, including calls made from inside callbacks and a full timer queue.",
["histories","programs"],
"all sequences of arm/re-arm/cancel/advance/poll operations up to depth bound over up to seven timers with equal and distinct deadlines, callbacks that arm or cancel others",
"The heap test in the tree only inserts; deletion of inner elements, on which every cancelled timeout relies, is never tested, and order violations need particular shapes of five or more elements.",
["src/common/timer.c","src/common/util/bheap.c"],
[("binary heap insert/delete","src/common/util/bheap.c"),("expiry loop","src/common/timer.c timer_expire")],
[("heap array and node index","armed timers by deadline","heap_t")],
["callback invocations","wait time"])

p("C08","The memory pool hands out disjoint zeroed blocks and survives exhaustion",
"Every successful allocation returns a block of at least the requested size, zero-filled, overlapping no block that is still in use; an allocation fails only when the request is larger than the largest size class or no free block of its size class is left, and then nothing is corrupted. Released blocks become available again; releasing something that is not a pool block is refused without blocking later callers.",
["histories","programs","schedules"],
"all alloc/release sequences up to a depth bound over sizes around every class boundary, started from an empty, a nearly exhausted and an exhausted pool of each class, invalid releases",
"The existing test allocates a few blocks from a fresh pool, far from exhaustion, in one thread.",
["src/common/mem.c","src/common/util/queue.h"],
[("size class choice and free lists","src/common/mem.c mem_pool_alloc, mem_pool_free"),("pool lock","src/common/mem.c g_mp_thread_lock")],
[("free/in-use lists per class","ownership of each block","mem_ctx_t")],
["returned addresses and contents"])

p("C09","A name lookup yields the first A record of the answer, or a clean refusal",
"For a domain request the server sends one well-formed query for exactly that name and, for every response, either connects to the address of the first IPv4 address record of the answer section (whatever other records precede it and whether record names are compressed or not) or, if there is none or the response is truncated, malformed, for another name, an error or missing, closes the client connection. No response makes it read outside the response, hang, crash, or connect to an address that the answer section does not contain, and each lookup concludes exactly once.",
["inputs","fault_sequences","schedules"],
"all responses composed of up to three records over {A, CNAME, AAAA, NS, A with bad length, zero-length data} x {compressed, labels, labels+pointer names}, record counts and sections, every truncation point, two datagrams, timeout and send failure",
"The existing lookup tests need a live resolver and assert nothing about malformed or multi-record answers.",
["src/dns/dns.c","src/app/socks5.c"],
[("response parser","src/dns/dns.c dns_response_recv, dns_response_analyze"),("query builder","src/dns/dns.c dns_request_host2qname, dns_request_packet")],
None,["query datagram","connect() destination","client close"])

p("C10","A cached name is reused while its TTL lasts and never afterwards",
"A repeated request for a name that was resolved less than its record's time-to-live ago (capped at three hours) is served with the same address without a new query, as long as no more than 256 names are being kept. Once that time has elapsed the cached address is never used again and a new query is made, whatever other names have been cached, looked up or swept in between.",
["histories","inputs","schedules"],
"all histories of lookups, clock advances (to just before, at and after each deadline, sweep ticks included) over up to three names with TTLs from {0,1,29,30,31,60,10800,10801,2^31,2^32-1} s",
T+"Wrong expiry only shows after the clock passes a deadline in a particular order with the periodic sweep.",
["src/dns/dns.c","src/common/util/ezhash.c","src/common/timer.c"],
[("cache lookup and sweep","src/dns/dns.c dns_rec_find, dns_rec_add, dns_rec_chk")],
[("cache entries","name, address, expiry","dns_ctx->dns_hash")],
["queries sent","connect() destination over time"])

p("C11","HTTP requests are answered once each, in order, however they are segmented",
"The response to a sequence of well-formed GET requests for files or the echo service and POST requests to the echo service (heads up to 4 KB, bodies up to 16 KB) does not depend on how their bytes are split into arrivals, including requests sent back to back on a kept-alive connection: each request gets exactly one response, in order, and a request body of the declared length belongs to its request and is neither lost nor taken for the next one. Header fields are recognised by their exact name in any letter case, at any position, also when other fields have empty values. The connection stays open after a response exactly when the request asked to keep it alive, for any number of requests.",
["inputs","schedules","histories"],
"request sequences of length 1..3 from a menu of GET/POST requests with varied headers and bodies, every one- and two-cut segmentation and full byte-by-byte delivery, pipelined or not, plain and TLS",
T+"Segmentation and pipelining create exponentially many arrival patterns of the same request.",
["src/http/http_req.c","src/app/webser.c","src/app/web_api.c"],
[("incremental request parser","src/http/http_req.c web_req_line, web_req_hdrs, web_req_payload"),("keep-alive recycling","src/app/webser.c webser_keepalive, webser_start")],
None,["response byte stream"])

p("C12","The web server never serves anything outside its document root",
"For every request target, the web server serves only regular files inside the configured document root, and never opens a regular file outside of it or returns its bytes. A target containing a parent-directory step is refused, whatever its length and wherever the step occurs, without serving a file.",
["inputs"],
"all targets composed of up to seven tokens from {/, .., ., names inside and outside the root, dotted names, empty, percent-encoded dots, backslash} in origin and absolute form, with filler placing the parent step at every length around each internal limit",
T+"Path confinement is a statement about all targets.",
["src/app/webser.c","src/http/http_req.c"],
[("parent-step filter and path construction","src/app/webser.c webser_req_router, webser_req_file")],
None,["paths opened","bytes sent"])

p("C13","HTTP responses are well-formed and carry exactly the requested content",
"Every response has a valid status line, header lines and a blank line, followed by exactly as many body bytes as its Content-Length states; for an existing readable file these are the file's bytes with the content type of its extension, for a missing file, a directory, anything else that is not a regular file, or a file whose permissions deny its owner reading an error status and no file content, and for the echo service the request body or the current time, which a Date header states too. This holds for every file size and however the client's receive window limits the individual sends, and a client that keeps reading always receives the whole response.",
["inputs","fault_sequences","schedules"],
"files of sizes around every buffer boundary (0, 1, 4096, 16343..16345, 40000), names with and without extension, every single and double blocked or shortened send at every send call, plain and TLS, short file reads and open failures",
T+"Back-pressure at particular byte positions cannot be produced by the existing tests.",
["src/app/webser.c","src/app/web_api.c","src/common/net_send.c","src/common/ssl.c","src/common/meta.c"],
[("header build and chained send","src/app/webser.c webser_rsp, webser_rsp_hdr_send"),("file body loop","src/app/webser.c webser_rsp_payload_send_ff"),("partial send of buffer chain","src/common/net_send.c send_chains")],
None,["response byte stream"])

p("C14","The shared TLS port tells tunnel and web traffic apart without losing bytes",
"On the shared TLS port, a connection whose first bytes are the tunnel magic value is treated as a tunnel client exactly as on the dedicated tunnel port, and any other connection is answered as on the ordinary HTTPS port, byte for byte, however short its request is and however its first bytes are segmented. On ordinary HTTP and HTTPS ports no input ever opens a tunnel.",
["inputs","schedules","configurations"],
"tunnel openings and HTTP requests (shorter and longer than the authorization header), near-miss magic values, every one- and two-cut segmentation of the first 40 bytes, modes with and without sharing",
T+"The decision is taken on a prefix that may arrive in any number of pieces.",
["src/app/webser.c","src/app/tls_tunnel_s.c"],
[("first-bytes routing","src/app/webser.c webser_transfer_to_tlstunnel")],
None,["responses","outbound connects"])

p("C15","The master keeps all workers running and stops or reloads all of them on request",
"While no stop has been requested, every worker that dies is replaced by exactly one new worker, and a reload request makes every worker that was alive stop and be replaced. After a stop request every live worker is told to stop and ends, none is replaced, and the master then exits and removes its pid file, which nobody else removes. This holds for every order, coincidence and merging of worker deaths, failed forks and requests, and the stop and reload commands signal the process named in the pid file and no other.",
["schedules","histories","fault_sequences"],
"all interleavings up to a depth bound of worker exits/crashes, stop and reload requests, failed forks of replacements, reuse of process numbers and merged child signals, delivered between any two process or wait calls while unblocked, with 1..3 workers; a stop request at or in every wait of a worker that serves a tunnel or HTTP session; ten pid file contents with both commands and near misses of them",
T+"No test starts a process; signal coincidences cannot be produced deterministically.",
["src/common/process.c","src/main.c"],
[("master loop","src/common/process.c proc_master_run"),("signal handlers and broadcast","src/common/process.c proc_signal_cb, proc_signal_bcast, proc_waitpid")],
[("worker table","pid and exited flag per worker","g_proc_ctx->processes")],
["fork/kill/wait calls","process exit","pid file"])

p("C16","Containers behave like their textbook counterparts for every operation history",
"For every history of operations, the hash table behaves as a map from byte strings to byte strings that keeps the first value added for a key, the queue as an ordered sequence, the dynamic array and the block list as growing arrays whose elements keep their values, the search tree as an ordered collection of integer keys (equal keys are kept) with insert, search, minimum and delete, and the binary heap as a priority queue from which any element can be removed. Releasing a container returns everything it allocated.",
["histories","programs","inputs"],
"all operation sequences up to a depth bound over small key sets (with colliding hash keys, keys that are prefixes of one another, embedded zero bytes, equal and boundary integer keys), all tree shapes of up to seven keys with every deletion order",
"The existing tests run one fixed sequence per container.",
["src/common/util/ezhash.c","src/common/util/queue.h","src/common/util/queue.c","src/common/util/arr.c","src/common/util/list.c","src/common/util/bst.c"],
[("containers","src/common/util")],
None,["return values and contents"])

p("C17","The ring buffer is a lossless FIFO for every push/pull history",
"The ring buffer returns exactly the bytes pushed, in order: a push is accepted in full if and only if they fit in the free space and otherwise changes nothing, a pull returns the oldest bytes, as many as were asked for or as there are, and refuses when there are none, and the reported fill level is the number of bytes pushed and not yet pulled. This holds for every history, wherever the content wraps around.",
["histories","programs","schedules"],
"all reachable (start offset, fill) states of buffers of capacity 1..8, all push/pull lengths from each of them",
"No test uses the ring buffer; wrap-around states need particular offsets.",
["src/common/ringbuffer.c","src/common/ringbuffer.h"],
[("push/pull with wrap","src/common/ringbuffer.c")],
None,["return values and bytes"])

p("C18","A log record is one bounded line of the message and nothing else",
"A record at or below the configured level is written once to the standard output and once to its log file, both carrying the same bytes: a prefix with level, time and origin followed by the formatted message, cut at the record limit and containing no other memory of the process. A record above the configured level writes nothing.",
["inputs","configurations"],
"all message lengths 0..2200 for plain, string-argument and mixed formats, function names up to and past the limit, all levels x configured levels x log targets, failing log descriptors",
T+"Over-long messages only occur with attacker-chosen request targets.",
["src/common/log.c","src/common/log.h"],
[("formatting into a bounded buffer","src/common/log.c log_print")],
None,["write() calls"])

p("C19","Encrypted data decrypts to the original and tampering is detected",
"For both offered ciphers and a byte string of any length, encryption yields exactly the ciphertext (and tag) that the standard algorithm prescribes for the program's key, also when done in place, and decrypting it returns the original string. In the authenticated mode, a ciphertext or tag in which any bit was changed, or which was shortened or extended, is refused.",
["inputs","histories"],
"all lengths 0..299 (1199 in the thorough tier) with four contents for both ciphers, every single-bit change, truncation and extension of ciphertext and tag of messages up to 40 bytes, every two-bit change of a short message, allocation failures",
"No test uses the cipher helpers.",
["src/common/sys_cipher.c","src/common/sys_cipher.h"],
[("cipher wrappers","src/common/sys_cipher.c")],
None,["return values and buffers"])

p("C20","Every pending connection is accepted, whatever happens to its neighbours",
"When the kernel announces pending connections on a listening port, every one of them is accepted and handed to that port's service, or closed if resources are lacking, without waiting for a further announcement. Interrupted calls, connections aborted before being accepted, and failures to set up one connection do not leave the others waiting.",
["fault_sequences","schedules","histories"],
"up to four simultaneous arrivals on one or two ports, every single and double fault (interrupted, aborted, protocol error, allocation or socket option failure) at every accept step",
T+"Edge-triggered listening loses connections only when a fault hits between two simultaneous arrivals.",
["src/common/net.c","src/common/listen.c","src/common/event.c"],
[("accept loop","src/common/net.c net_accept"),("listener registration","src/common/event.c ev_init, src/common/listen.c")],
None,["accept() calls","responses"])

p("C21","TLS handshakes, reads, writes and shutdowns complete under any blocking pattern",
"A TLS connection whose peer follows the protocol completes its handshake, transfers its data and shuts down, for every pattern in which individual reads and writes would block at any byte, in both roles. A handshake that fails or stalls is given up, releasing both legs, and an error on one connection, or one left over from an earlier failure, never affects another connection.",
["schedules","fault_sequences","histories"],
"every single and double would-block at every wire read and write of handshake, data and shutdown in server and client role, key updates asked for at any point of a session, stalls and garbage at each handshake step, certificate loading failure before other connections",
T+"Would-block at a particular handshake byte and leftover library errors are not reachable by tests.",
["src/common/ssl.c","src/common/net.c"],
[("handshake continuation","src/common/ssl.c ssl_handshake, ssl_handshake_cb"),("shutdown continuation","src/common/ssl.c ssl_shutdown, ssl_shutdown_cb"),("error queue handling","src/common/ssl.c ssl_clear_error, ssl_dump_error")],
None,["handshake completion, bytes, closes"])

p("C22","Multi-pattern search finds a text exactly when some pattern occurs in it",
"For every set of registered patterns and every text fed to a freshly reset matcher, whole or in consecutive pieces, a match is reported at exactly the first piece in which an occurrence of some pattern ends, and none is reported if no pattern occurs. Registering patterns that are prefixes, suffixes or substrings of one another changes nothing about this.",
["inputs","histories","programs"],
"all pattern sets of up to three patterns of length 1..4 over two- and three-letter alphabets including high and control bytes, all texts up to length 9 in all two- or three-piece splits, sets of many patterns, allocation failures",
"No test uses the matcher; failure links only matter for overlapping patterns.",
["src/common/aho_corasick.c"],
[("failure links and search","src/common/aho_corasick.c ezac_compiler, ezac_find")],
None,["return values"])

p("C23","Configuration is taken over exactly, and bad files cannot corrupt the process",
"Every recognised setting present in the configuration file with the right type is taken over exactly, strings being cut at their field's limit and port lists at the supported maximum; settings that are absent or of the wrong type keep their default, and every configured port is listened on. No configuration or key file content, including truncated or malformed ones, makes the process read or write outside its buffers.",
["configurations","inputs"],
"each setting present/absent/wrong type, pairs of settings, string lengths around every field limit, port list lengths 0..70, every truncation of a full configuration, file read faults; 0..65 distinct ports of each kind for the listeners",
T+"Nothing loads a configuration in the tests.",
["src/common/config.c","src/app/tls_tunnel_s.c","src/common/listen.c"],
[("configuration parser","src/common/config.c"),("key file parser","src/app/tls_tunnel_s.c tls_tunnel_s_auth_fparse")],
None,["effective configuration","ports listened on"])

p("C24","JSON survives a parse/print round trip and bad documents are refused safely",
"Every well-formed JSON document within the nesting limit parses to the values it denotes, and printing the parsed value and parsing it again yields an equal value (numbers to one unit in the last place). Every malformed or truncated document is either refused or parsed up to its first complete value, without reading past the end of the text, and without leaking memory.",
["inputs","programs"],
"all documents of a JSON grammar up to a size bound (nesting 3, two members per container, number/string/escape/literal menus, whitespace), every truncation and every single-character replacement of a set of base documents",
"No test parses JSON.",
["src/common/cJSON.c"],
[("parser and printer","src/common/cJSON.c")],
None,["parsed tree, printed text"])

p("C25","Silent peers are dropped in bounded time, active ones are not",
"A connection on which the peer stays silent at any phase (before or during a TLS handshake, before or inside a request, while a reply or a lookup or a connect is outstanding, while data is waiting to be accepted, while idle) is closed and its resources are released within one minute. A peer that makes progress at least every four seconds is never dropped for being slow.",
["schedules","histories","fault_sequences"],
"silence starting after every step of server-mode, client-mode, HTTP, HTTPS and shared-port sessions, and pauses of up to four seconds inserted between any steps",
T+"Needs a virtual clock and every protocol phase.",
["src/common/net.c","src/common/ssl.c","src/common/timer.c","src/app/tls_tunnel_s.c","src/app/tls_tunnel_c.c","src/app/socks5.c","src/app/webser.c","src/dns/dns.c"],
[("per-phase timers","EZ_TMADD/EZ_TMDEL uses in src/app, src/common, src/dns")],
None,["close of silent connections over virtual time"])

p("C26","No input from one peer can crash, hang or disturb the service of others",
"Whatever bytes a peer sends to any port, in any protocol phase, and however it behaves (disconnects, resets, malformed TLS, tunnel, SOCKS5, HTTP or DNS data), the process neither crashes nor loops nor reads or writes outside its buffers, and sessions of other peers, concurrent and later, get exactly the service they would have got without it.",
["inputs","schedules","histories","fault_sequences"],
"all byte/token strings up to a length bound per port and phase from protocol-specific alphabets, over-long fields, run against a concurrent well-behaved session of each kind with all bounded interleavings",
T+"Robustness is a statement about all inputs, and isolation about all interleavings.",
["src/app/socks5.c","src/app/webser.c","src/http/http_req.c","src/app/tls_tunnel_s.c","src/dns/dns.c","src/common/ssl.c","src/common/event.c"],
[("input validation in each parser","src/app, src/http, src/dns"),("per-connection state","con_t and its data")],
None,["process survival","responses of the well-behaved session"])

p("C27","Pool and ring buffer stay correct when several threads use them",
"When several threads take blocks from and return blocks to the memory pool at the same time, no two of them ever hold the same memory, a block handed out is zeroed and not touched by the others, no block is lost, invented or refused while enough are free, and no thread is left waiting for ever. When several threads add data to and take data from one ring buffer at the same time, the results are those of some one-after-another order of the operations.",
["schedules","histories"],
"all interleavings at single memory accesses with a bounded number of switches, of two or three threads running short sequences of operations on nearly exhausted pools and on a small ring buffer in every fill state",
"The locks matter only for particular interleavings of single memory accesses, which a test cannot select.",
["src/common/mem.c","src/common/ringbuffer.c"],
[("pool under its lock","src/common/mem.c"),("ring buffer under its lock","src/common/ringbuffer.c")],
None,["blocks handed out and their contents","results of ring buffer operations"])

p("C28","Buffer chains are sent, measured, joined and filled without losing a byte",
"A chain of buffers handed to a connection leaves it complete, in order and each byte once, however little the socket takes at a time and however often it blocks or is interrupted: completion is reported exactly when the last byte was taken, blocking only when the socket blocked, and failure only when the connection failed. Measuring or joining a chain gives exactly the bytes not sent yet and leaves the chain as it was, and adding data to a buffer is accepted exactly when it fits and never touches anything else. Reading from a connection delivers every byte once and in order and tells a connection without data apart from a closed or broken one.",
["inputs","fault_sequences","histories"],
"all chains of up to five buffers of up to seven bytes, consumed up to every point, every number of bytes taken by every send, blocking, interruption and failure at every call, chains growing meanwhile; all sequences of additions to buffers of capacity 0..8; reads of every size with every arrival pattern; failing allocations",
"A socket that takes part of a buffer is rare and where it cuts cannot be chosen by a test.",
["src/common/meta.c","src/common/meta.h","src/common/net_send.c"],
[("sending a chain","src/common/net_send.c send_chains"),("measuring, joining, adding","src/common/meta.c")],
None,["bytes handed to the socket","return values and buffer contents"])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
import re
for x in P:
    n=len(re.findall(r'[.](?=\s|$)',x["statement"]))
    if n>3: print(x["id"],n)
