#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
CLAIMED = {
    "C01": ("whole client/server system over simulated UDP and TCP, seeded search over schedules, delays, loss, duplication, cancellations; history oracle matching every reply with its request",
            "Sampled runs; the operating system, network and clock are simulated, all of over-there runs as is."),
    "C02": ("concurrent multi-packet messages over a simulated network that loses, repeats, delays and reorders packets; an oracle over the arrival times of all packets tells which messages must, may and must not be delivered",
            "Sampled runs; the network and clock are simulated."),
    "C03": ("an attacker without keys alters, splices, forges and injects packets inside the simulated network; the executed and answered messages are compared with those key holders sent, and genuine traffic must get through afterwards",
            "Sampled runs; the attacker's operations are a fixed catalogue with random arguments."),
    "C04": ("real threads decrypting under a cooperative scheduler with a reference model of the nonce cache, and a whole server under replay over the simulated network",
            "Sampled runs; preemption only at allocations and futex operations of the threads."),
    "C05": ("clients and a server exchanging messages of every size over a simulated loss-free network that observes every packet; round trips and packet sizes against the transmission size of the transport in use",
            "Sampled sizes and configurations; the network is simulated."),
    "C06": ("TCP streams cut, joined, short-written, short-read and reset anywhere by the simulated network and operating system, with further peers writing genuine bytes in arbitrary pieces; per-connection prefix and order oracle",
            "Sampled cuts; the network is simulated."),
    "C07": ("servers and clients under a schedule of transient I/O errors, ICMP errors, garbage, crashes, resets, partitions and panicking handlers; a supervisor client must be answered again within a bound once the faults stop",
            "Sampled histories; the operating system, network and clock are simulated."),
    "C08": ("every way of asking, with random timeouts and sizes, against healthy, slow, crashing, partitioned, mute and absent servers over the simulated network; virtual time measures every request, and clients must be usable again afterwards",
            "Sampled histories; elapsed time is virtual, and computation takes none."),
    "C09": ("open files used by several clients, in batches and sequences, over lossy simulated networks with failing, torn and delayed file operations; history oracle over unique version tags, compared with the real files in the end",
            "Sampled histories; file faults are injected above the real file system, crash durability is not claimed."),
    "C10": ("rounds of concurrent file and directory operations with varied spellings of paths and failing file operations, against a reference model of the tree and the open files kept as a set of possible states and compared with the real tree after every round",
            "Sampled histories on a small tree; nobody but the server changes the files."),
    "C11": ("clients using and abandoning open files while the periodic cleanup runs against stalled tasks, slow file operations and jumping timers; time-bound oracle over the recorded history in virtual time, and the process's real open descriptors in the end",
            "Sampled histories; virtual time, real files."),
    "C12": ("simulated processes with random scripts used by several clients at once through delayed, short and cut pipes; the simulated kernel's record of what each process wrote, consumed and how it ended is the oracle for every read, write and status",
            "Sampled histories; processes are simulated, not real programs."),
    "C13": ("simulated processes that hang, ignore input, produce output or exit, killed, polled and abandoned by several clients around both lifetimes and the cleanup; the simulated kernel's record and virtual time bounds are the oracle",
            "Sampled histories; processes are simulated; one known finding."),
    "C14": ("random trees of sequences and batches over operations that identify themselves, fail, panic, pass values on or touch files, under delays and failing file operations; a reference evaluator decides what must run and be answered, compared with the execution log and the real files",
            "Sampled trees and histories."),
    "C15": ("predictable clients next to flooding, mute, crashing, half-finished, cut-off and lock-grabbing antagonists on the simulated network; every reply must be right, unique, in order and within a bound on virtual time derived from the declared work",
            "Sampled histories; two known findings (unread replies, slow requests) are judged in variants of their own."),
    "C16": ("equal segments of random traffic (failing, timed out, cancelled and abandoned work, lone fragments, resets, crashes) with all faults stopped and every lifetime passed in virtual time after each; live heap blocks and bytes of the code under test, tasks, sockets, descriptors and processes must not grow from segment to segment",
            "Sampled histories; growth below the stated allowances is not seen."),
    "C17": ("the real over_there::cli::run of client and server inside one simulated run: simulated processes with drawn outputs, exits and inputs, the standard streams of the command line behind a simulated seam (short reads and writes, EINTR, waiting input), loss, delay, reattachment and timeouts in virtual time; destinations compared byte by byte with what the process wrote, and the return and its virtual time with the grace period and timeouts given",
            "Sampled runs; argument parsing itself is exercised, terminal behaviour only through the standard-input seam."),
    "C18": ("a server that is shut down 1-3 times per run at drawn moments under bursts, compound and slow requests, idle, half-finished and mute connections; the executed requests and directories after the call, the virtual time until wait returns, the tasks, sockets, files and processes left on the server's node, the start of the next server and every client's outcomes are checked",
            "Sampled moments of shutdown; requests under way whose own work never ends are not covered."),
    "C19": ("DelimiterWriter and DelimiterReader over a simulated link and simulated TCP that accept and deliver drawn numbers of bytes, fail and stall in between, with reads that are dropped unfinished and a peer that waits for its pieces before it goes on; compared with a plain split of the bytes that were sent",
            "Sampled contents, delimiters and chunkings; the delimiter is not empty and the caller's buffer holds the maximum size."),
}
NA = {
    "C20": "Encoding and decoding a value is a pure function of its input: no scheduling, time, I/O, failure or second party is involved, so there is nothing for a simulator to decide; deciding it would need a different technique (exhaustive or generated values without any simulation).",
}
IDS = ["C%02d" % i for i in range(1, 21)]
m = {"version": 1,
     "setup_cmd": "./check.sh build",
     "checks": [], "not_applicable": []}
for i in IDS:
    if i in CLAIMED:
        t, n = CLAIMED[i]
        m["checks"].append({"property": i,
            "quick_cmd": "./check.sh %s quick" % i,
            "thorough_cmd": "./check.sh %s thorough" % i,
            "technique": T + t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
