#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Every answer belongs to the request it is given for, at most once",
 "Whatever mix of requests any number of clients have outstanding, on either transport, a request only ever completes with the reply the server produced for that very request of that very client, and completes exactly once: with that reply, or with a timeout or send error. "
 "A reply that arrives late, twice, or for a request nobody is waiting for any more is dropped without affecting any other request. "
 "On a network that loses nothing, every request whose reply is produced in time completes with its reply rather than an error.",
 ["schedules","fault_sequences","histories"],
 "All interleavings of concurrent requests from several clients (sequential and concurrent per client), all sequences of datagram loss, duplication, delay and reordering, replies later than the timeout.",
 "Unit tests call the handlers directly and the integration tests run one client and one request at a time over a healthy loopback; no test has two outstanding requests, a lost, late or duplicated reply.",
 ["src/core/client/mod.rs","src/core/client/connected.rs","src/utils/callback.rs","src/core/msg/mod.rs","src/core/server/action/mod.rs","src/core/event/mod.rs"],
 [("reply routed by the id of the request's header","src/core/client/mod.rs event_loop"),("one-shot callback registered before the request is sent","src/core/client/connected.rs ask"),("reply carries the request's header as parent and goes to the origin address/connection","src/core/server/action/mod.rs Executor::respond")],
 ["Result of ConnectedClient::ask and the typed ask_* calls"])

prop("C02", "A message arrives whole and unchanged, or not at all",
 "Every message handed up by a receiver equals, byte for byte, a message some sender actually sent on that wire: it is never truncated, spliced from two messages, assembled from an incomplete set of packets, or assembled from packets older than the configured packet lifetime. "
 "This holds however the packets of concurrently sent messages are lost, duplicated, delayed, reordered and interleaved. "
 "If all packets of a message arrive within the packet lifetime, in any order and with any repetition, the message is delivered.",
 ["schedules","fault_sequences","inputs","configurations"],
 "All payload sizes (0 bytes to many packets), transmission sizes, authenticator/encryption combinations, packet lifetimes, and all loss/duplication/reordering/delay patterns of their packets.",
 "Encoder, decoder and processors are each tested on a handful of small in-order inputs, the wires only through an in-order loopback; reordering, duplication, interleaved groups and lifetime expiry in combination with encryption are never produced.",
 ["src/core/transport/wire/input/mod.rs","src/core/transport/wire/input/decoder.rs","src/core/transport/wire/output/mod.rs","src/core/transport/wire/output/encoder.rs","src/core/transport/wire/packet.rs","src/core/transport/wire/udp.rs"],
 [("packets grouped by message id, ordered by index, complete only with every index up to the final one","src/core/transport/wire/input/decoder.rs Decoder::add_packet/verify/decode"),("groups expire after the packet TTL","src/core/transport/wire/input/decoder.rs remove_expired"),("nonce carried by the final packet","src/core/transport/wire/output/mod.rs")],
 ["Messages returned by InboundWire::process and delivered to client/server event loops"])

prop("C03", "Altered, forged or garbage traffic is never acted on",
 "With message signing by a shared key switched on, nothing that was not produced by a key holder - random bytes, bit-flipped, truncated, extended or field-spliced packets, packets made with another key - ever causes a request to be executed or a reply to be accepted, with or without encryption, on either transport. "
 "With authenticated encryption alone, the same holds for the payload: no altered or foreign payload is ever delivered. "
 "Such traffic is discarded without stopping the receiver: genuine requests sent afterwards are still served.",
 ["fault_sequences","inputs","configurations","schedules"],
 "All corruptions, splices and forgeries of packets of genuine traffic, injected at any point of a multi-packet exchange in either direction; every authenticator x cipher combination the program offers.",
 "The tests check sign/verify and encrypt/decrypt of single buffers; no test sends an altered or foreign packet to a running server or client, let alone in the middle of a multi-packet message.",
 ["src/core/transport/wire/input/mod.rs","src/core/transport/auth/impls.rs","src/core/transport/auth/digest.rs","src/core/transport/crypto/aes","src/core/event/mod.rs"],
 [("signature over metadata and data verified before anything else","src/core/transport/wire/input/mod.rs verify_packet"),("AEAD decryption with per-message nonce","src/core/transport/crypto/aes/*"),("processing errors do not end the inbound loop","src/core/event/mod.rs process_inbound")],
 ["Requests executed by the server (custom handler log, file/process effects), replies returned by ask"])

prop("C04", "With replay protection, an encrypted message is accepted at most once",
 "When a cipher is wrapped in the replay-protecting cache, a ciphertext recorded from the network and delivered again - immediately or later, on the same or another connection sharing the cache, or to several threads at the same instant - is accepted at most once as long as its nonce is among the most recently accepted nonces the cache is sized for. "
 "Rejected or undecryptable traffic never makes a genuine, not yet delivered message be refused. "
 "Fresh messages are always accepted, however many replays surround them.",
 ["schedules","fault_sequences","inputs","histories"],
 "All interleavings of decryptions of the same and different messages by several threads, all cache sizes, all sequences of deliveries, replays and forgeries.",
 "The tests decrypt the same buffer twice in one thread with a cache of one size; concurrent decryption, forged nonces, eviction order and duplicate delivery through a running server are never exercised.",
 ["src/core/transport/crypto/nonce/cache.rs","src/core/transport/crypto/nonce/mod.rs","src/core/transport/crypto/split.rs"],
 [("LRU of seen nonces consulted before and updated after decryption","src/core/transport/crypto/nonce/cache.rs")],
 ["Result of Decrypter::decrypt; number of executions of a request delivered several times"],
 "cfg(over_there_sim): a yield point around the nonce cache's lock so the simulator decides the interleaving of decrypting threads")

prop("C05", "Any message size gets through a healthy network, in packets that fit",
 "On a network without loss, every request and every reply, of any size and content and under every authentication/encryption configuration, is delivered. "
 "Every packet put on the wire - datagram or stream packet - is no larger than the transmission size of the transport in use, however many messages of whatever sizes were sent before it.",
 ["inputs","configurations","histories"],
 "All payload sizes and contents, random message ids/nonces/signatures, every authenticator x cipher x transport (UDP over IPv4/IPv6, TCP), any history of earlier messages on the same wire.",
 "Sizes are tested on a few fixed inputs with one fixed fake packet estimate; signatures, nonces and ids are random and change the encoded size, so that a packet may exceed the limit only for rare values.",
 ["src/core/transport/wire/output/encoder.rs","src/core/transport/wire/output/mod.rs","src/core/transport/wire/packet.rs","src/core/transport/net/mod.rs"],
 [("largest data size per packet found by encoding a stand-in packet, cached","src/core/transport/wire/output/encoder.rs estimate"),("receive buffers sized to the transmission size","src/core/transport/wire/udp.rs, src/core/transport/wire/tcp.rs")],
 ["Sizes of datagrams/segments seen by the simulated network; completion of ask on a lossless network"])

prop("C06", "TCP delivery does not depend on how the stream is cut",
 "Over TCP every message written by one side is delivered by the other exactly once and in order, whatever way the byte stream is segmented or coalesced on the way, including partial writes by the sender's operating system. "
 "When a connection breaks in the middle of a message nothing of that partial message is delivered.",
 ["schedules","fault_sequences","inputs"],
 "All segmentations and coalescings of the stream, all short writes, resets and EOFs at any byte, bursts of messages of any size.",
 "The TCP tests send one small message at a time over loopback, where each write happens to be returned by one read.",
 ["src/core/transport/wire/tcp.rs","src/core/event/tcp.rs"],
 [("packet extraction from the stream","src/core/transport/wire/tcp.rs TcpStreamInboundWire::read"),("packet emission","src/core/transport/wire/tcp.rs TcpStreamOutboundWire::write")],
 ["Requests executed by the server and replies received by the client over a simulated TCP connection"])

prop("C07", "The server outlives its clients' failures and transient I/O errors",
 "No finite sequence of malformed traffic, disconnects and resets in mid-message, half-open or vanished clients, client restarts, unsupported or failing requests, or transient send/receive/accept errors makes the server crash or stop serving. "
 "Once the faults stop, every connected client's and every new client's well-formed requests are answered within the normal time. "
 "A connected client likewise keeps working after transient send/receive errors and after its server was restarted on the same address (UDP).",
 ["fault_sequences","schedules","crash_points","inputs"],
 "All sequences of transport faults and crashes at any point of any exchange, followed by a fault-free period.",
 "Tests never inject an I/O error, a disconnect, a reset or a restart; the loops' error branches are not executed at all.",
 ["src/core/event/mod.rs","src/core/event/tcp.rs","src/core/event/udp.rs","src/core/server/mod.rs","src/core/client/mod.rs","src/core/transport/wire/tcp.rs"],
 [("inbound/outbound loops and their error handling","src/core/event/*.rs"),("accept loop","src/core/event/tcp.rs tcp_listener_inbound_loop"),("server event loop","src/core/server/mod.rs")],
 ["Replies to probe requests after faults stop; panics of any task"])

prop("C08", "A request returns within its timeout, whatever the other side does",
 "Every request made by a client returns - with its reply or an error - no later than the client's configured timeout (plus scheduling slack), even if the server is unreachable, silent, slow, stalled with full buffers, crashed or restarting, or the connection dies. "
 "After a timeout the client remains usable, and once the server is reachable again later requests succeed.",
 ["schedules","fault_sequences","crash_points"],
 "All timeouts, all points at which the peer or network may stop, any number of outstanding requests and any outgoing queue size.",
 "There is no test of a timeout at all; the failing branches (send blocked, reply lost) need a peer that stops at a particular point.",
 ["src/core/client/connected.rs","src/core/event/mod.rs"],
 [("timeout around waiting for the reply","src/core/client/connected.rs ask"),("bounded outgoing queue","src/core/event/mod.rs EventManager::send")],
 ["Virtual time between call and return of ask"])

prop("C09", "Open-file reads and writes behave like one versioned register",
 "For every open file, operations of all clients take effect one at a time: a read carrying the current version tag returns exactly the contents of the last successful write, a write or rename carrying the current tag succeeds and yields a new tag, and any operation carrying an outdated tag is refused with the current tag and changes nothing. "
 "So of concurrent writers holding the same tag at most one succeeds and no acknowledged write is silently overwritten by a client unaware of it. "
 "A write that fails part-way is reported as failed and makes the old tag invalid if the contents may have changed.",
 ["schedules","fault_sequences","histories","inputs"],
 "All interleavings (including batches run concurrently inside the server) of open/read/write/close/rename/remove by several clients, all contents, all I/O errors (short and torn writes, full disk, read and seek errors) at any step.",
 "Tests execute each handler once, sequentially and without I/O errors; no history of concurrent operations is ever checked, and no disk error is injected.",
 ["src/core/server/fs/file.rs","src/core/server/fs/mod.rs","src/core/server/action/handler/fs.rs"],
 [("per-file random signature compared before and replaced on every modification","src/core/server/fs/file.rs"),("file manager lock held across each operation","src/core/server/action/handler/fs.rs")],
 ["Replies to file requests; bytes on disk"])

prop("C10", "Open files and the directories holding them are protected by path",
 "At any time one path refers to at most one open file: opening it again - however the path is spelled - yields the same file, with permissions widened but never narrowed. "
 "Renaming or removing by path (file or directory) is refused, and changes nothing on disk, whenever it would move, delete or replace a file that is open. "
 "Once a file was removed, closed or expired its handle is no longer accepted and its path can be opened anew; after a rename through the handle the file is known under its new path only.",
 ["histories","schedules","inputs","fault_sequences"],
 "All histories of open/close/rename/remove/create/list requests on a tree of files, directories and symlinks with any spelling of the paths (relative segments, symlinks), from several clients, with disk errors.",
 "Tests check single calls on a fresh manager; histories such as remove-then-open, rename-then-open under another spelling, or rename onto an open file are not tested.",
 ["src/core/server/fs/mod.rs","src/core/server/fs/file.rs","src/core/server/fs/dir.rs","src/core/server/action/handler/fs.rs"],
 [("path canonicalisation and search among open files","src/core/server/fs/mod.rs open_file/clean_path"),("guard against touching open files","src/core/server/fs/mod.rs check_no_open_files")],
 ["Replies to file/directory requests; resulting tree on disk"])

prop("C11", "Idle open files expire on time, used ones never do",
 "A file handle stays valid as long as it is used at least once per configured file lifetime, no matter when the periodic cleanup runs relative to the requests. "
 "A handle not used for the lifetime plus one cleanup period is closed and later refused; a client that opens a file always receives a handle that is valid for the full lifetime.",
 ["schedules","histories","configurations"],
 "All lifetimes and cleanup periods, all timings of requests relative to expiry and cleanup, all interleavings of the cleanup with requests in progress.",
 "Tests call the eviction once with lifetimes of microseconds or minutes; the races between cleanup, open and use depend on instants no test controls.",
 ["src/core/server/state.rs","src/core/server/mod.rs","src/utils/ttl.rs","src/core/server/action/handler/fs.rs"],
 [("touch on each request, eviction under lock","src/core/server/state.rs"),("cleanup loop","src/core/server/mod.rs cleanup_loop")],
 ["Replies to file requests over virtual time; open file descriptors of the server"])

prop("C12", "Remote process input and output are complete, in order, exactly once",
 "The concatenation of all standard output (error) a client reads from a remote process is exactly what the process wrote, in order, nothing lost and nothing repeated, including everything written before it exits, whichever clients read, and however reads interleave with writes, exits and other processes. "
 "Input that was acknowledged as written reaches the process exactly once and in order. "
 "The reported exit status is the process's own: alive until it has exited, then dead with its true exit code.",
 ["schedules","inputs","fault_sequences","histories"],
 "All chunkings and rates of process output and input, pipe capacities, exit codes, all interleavings of reads with output and exit, several processes and clients at once.",
 "The tests run cat/echo once with real timing and poll; what they observe depends on luck (half are excluded from the stable list), no chunking or exit race is controlled.",
 ["src/core/server/proc.rs","src/core/server/action/handler/proc.rs"],
 [("task draining stdout/stderr into buffers, reads drain the buffer","src/core/server/proc.rs spawn/read_stdout"),("write_all + flush to stdin","src/core/server/proc.rs write_stdin"),("exit status remembered","src/core/server/proc.rs exit_status")],
 ["Replies to process requests against the record of the simulated process"])

prop("C13", "Remote processes can always be killed and never outlive their lifetime",
 "A kill request terminates the process and is answered in bounded time whatever the process is doing - running, blocked on its pipes, ignoring its input, already exited - and afterwards the process id is refused. "
 "A process that no client has used for its configured lifetime (the shorter one once it was seen dead) is killed and forgotten within one cleanup period, and one that is being used is never killed by the cleanup. "
 "No request about one process, whatever that process does, prevents requests about other processes or files from being answered.",
 ["schedules","histories","fault_sequences","configurations"],
 "All process behaviours (never reading, flooding output, sleeping, exiting at any instant), all timings of kill/status/input relative to them, lifetimes and cleanup periods.",
 "Tests kill a cooperative process once; a process that does not read its input or exits at the instant of the request, and the cleanup races, are never produced.",
 ["src/core/server/proc.rs","src/core/server/state.rs","src/core/server/action/handler/proc.rs"],
 [("kill and wait","src/core/server/proc.rs kill_and_wait"),("lifetime tracking and eviction","src/core/server/state.rs evict_procs"),("process table lock","src/core/server/action/handler/proc.rs")],
 ["Replies to process requests; liveness of simulated processes"])

prop("C14", "Compound requests run as specified and are always answered",
 "A sequence executes its operations in order, each seeing the effects and, where asked, values of the previous reply; after the first failing operation no later operation takes effect and each is reported as not executed. "
 "A batch executes every operation exactly once, concurrently, and its results are in the order of its operations, one failure not affecting the others. "
 "Every compound request the encoding of messages can carry (nesting up to about 25 levels), whatever its operations, receives exactly one answer; nesting beyond the limit of 5 is refused without executing what is beyond it.",
 ["schedules","inputs","fault_sequences","histories"],
 "All nestings of sequences and batches over all operations (including failing, unsupported and unanswerable ones), all substitution rules including malformed ones, all interleavings of concurrent batch members.",
 "Tests cover a few fixed two-operation compounds of handlers that complete immediately; ordering is never challenged by operations of different duration, nor are unanswerable operations nested.",
 ["src/core/server/action/mod.rs","src/core/msg/content/request/transform.rs","src/core/msg/content/reply/mod.rs"],
 [("sequence loop with abort on error reply","src/core/server/action/mod.rs route_and_execute"),("batch via spawned tasks joined in order","src/core/server/action/mod.rs route_and_execute"),("depth counter","src/core/server/action/mod.rs")],
 ["Replies to compound requests and side effects recorded by the custom handler / disk"])

prop("C15", "One client cannot starve or disturb another",
 "Requests of one client are answered in bounded time regardless of what other clients do: stop reading their connection, leave a request unfinished, flood the server, open and abandon connections, or occupy the server with slow operations on their own resources. "
 "What one client does never changes the contents, order or number of another client's replies, and no combination of requests and background cleanup makes the server wait for itself forever.",
 ["schedules","fault_sequences","histories"],
 "All behaviours of the other clients within the protocol and at the transport (stalls, floods, disconnects), all internal queue sizes, all interleavings with cleanup.",
 "No test has more than one client; stalls need a peer that stops reading with full buffers, which loopback tests never create.",
 ["src/core/server/mod.rs","src/core/event/tcp.rs","src/core/event/udp.rs","src/core/server/action/mod.rs","src/core/server/state.rs"],
 [("per-connection queues","src/core/event/tcp.rs"),("event loop","src/core/server/mod.rs"),("lock order of shared state","src/core/server/state.rs")],
 ["Virtual response times and replies of a well-behaved client next to misbehaving ones"])

prop("C16", "Memory and connections stay bounded under endless traffic",
 "However long a client and server run and however many messages, lost fragments, timeouts, reconnects and opened-then-closed resources they see, what they retain is bounded by what is currently outstanding, the configured lifetimes and the cache sizes: fragments of incomplete messages are dropped once their lifetime is over, and finished requests, closed connections, files and processes leave nothing behind.",
 ["histories","fault_sequences","schedules"],
 "All lengths and mixes of traffic; measured as retained memory, sockets, tasks and file descriptors after n and after 2n rounds of the same kind of traffic.",
 "Tests live for milliseconds; growth per message is invisible to them.",
 ["src/core/transport/wire/output/encoder.rs","src/core/transport/wire/input/decoder.rs","src/core/client/connected.rs","src/utils/callback.rs","src/core/event/tcp.rs","src/core/server/state.rs"],
 [("fragment lifetime","src/core/transport/wire/input/decoder.rs remove_expired"),("encoder caches","src/core/transport/wire/output/encoder.rs"),("callback removal","src/utils/callback.rs"),("connection removal","src/core/event/tcp.rs tcp_listener_spawn_stream")],
 ["Live heap bytes of the simulated world, open simulated sockets, tasks, descriptors"])

prop("C17", "The command line streams a remote process faithfully",
 "Running a remote command through the command line transfers all of the process's standard output and error, complete and in order, to the requested destinations, and ends by itself once the process has ended, within the configured grace period. "
 "Input given to the command line reaches the process completely and in order, and the end of that input does not cut off the output. "
 "The file and folder commands and raw requests do exactly what was asked and report the server's answer, and a command fails when the server refuses the request or does not answer in time. "
 "The request timeout given on the command line is the one in effect.",
 ["schedules","inputs","fault_sequences","configurations"],
 "All outputs (sizes, chunking, rates), exits at any moment relative to polling, all polling intervals, timeouts and network delays below the timeout.",
 "The command line code has no tests beyond argument types; polling races depend on timing.",
 ["src/cli/mod.rs","src/cli/opts","src/cli/builder"],
 [("poll loop with grace period after exit","src/cli/mod.rs process_proc"),("writers to redirected destinations","src/cli/mod.rs write_stdout/write_stderr")],
 ["Files the output is redirected to; return of cli::run in virtual time; virtual time at which a request fails"])

prop("C18", "Shutting the server down stops it",
 "After a running server is told to shut down, it executes no further request than the one under way, whatever is queued or arrives on open connections, and waiting for it returns once that request is done, even if there are clients that do not read their replies (these get a second to do so). "
 "All its background work ends within one cleanup period: no task, connection, open file or remote process of it remains, and its address can be used again at once. "
 "Requests executed before the shutdown are still answered, and clients of the stopped server get a timeout or connection error rather than wrong answers.",
 ["schedules","crash_points","histories"],
 "Shutdown at any instant relative to requests, cleanup and connections, for both transports and any cleanup period.",
 "No test ever shuts a running server down.",
 ["src/core/server/listening.rs","src/core/server/mod.rs","src/core/server/state.rs"],
 [("running flag","src/core/server/state.rs"),("wait for the loops","src/core/server/listening.rs")],
 ["Return of ListeningServer::wait in virtual time; requests executed after shutdown"])

prop("C19", "Delimited streams are cut correctly however the bytes arrive",
 "Reading a delimiter-separated stream yields exactly the pieces between the delimiters, in order, for every way the underlying reads split the bytes - one at a time, several pieces at once, in the middle of a delimiter - and with transient read errors in between, for all pieces no larger than the configured maximum. "
 "A piece that has arrived in full is returned without waiting for more to be read, and writing a piece puts all of it and its delimiter onto a stream that accepts any number of bytes at a time, or reports an error. "
 "Oversized pieces never cause a crash or block later pieces, and yield at most one of their tails.",
 ["inputs","fault_sequences","schedules"],
 "All piece contents (including bytes resembling the delimiter), delimiters, maximum sizes, chunkings of the reads and positions of read errors, in the blocking and the asynchronous form.",
 "Tests feed a few fixed chunkings; positions where a delimiter straddles the end of a full buffer are not covered.",
 ["src/utils/delimiter.rs"],
 [("internal buffer scan and shift","src/utils/delimiter.rs DelimiterReader")],
 ["Pieces returned by the reader"])

prop("C20", "Requests and replies survive their textual and binary encodings",
 "Every request, reply and error converts to each supported encoding and back without loss, and the published schema accepts what the program emits.",
 ["inputs"],
 "All values of the message types.",
 "Tests sample a few values per type.",
 ["src/core/msg","src/utils/serializers"],
 [("serde derives and custom serializers","src/core/msg/content, src/utils/serializers")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
