"""Which scenarios make up the check of each property: (scenario, flavour, runs in the quick tier)."""

REAL = ["all of /repo/src compiled unchanged: event loop, timers, memory pool (flavour pool), configuration, JSON, DNS client and cache, SOCKS5, tunnel client and server, web server, logging, process control",
        "libssl/libcrypto (real TLS handshakes and records on both nodes and in the simulated peers)"]
STUB = ["kernel: sockets, epoll, clock, signals, files, processes (simulated per system call)",
        "randomness of OpenSSL (seeded)", "applications, origin servers, name server (simulated peers)"]

TUNNEL_RULE = ("One run = random configuration (keys, modes, direct or through the client node), 1-7 sessions with random transfer patterns and sizes, "
               "random segmentation, delays, buffer sizes, wake-up latency and order of events. ")

CHECKS = {
    "P01": dict(level="exploration", runs=[("p01", "asan", 1600), ("p01", "pool", 1600)],
                rule=TUNNEL_RULE + "Connections are reset, closed early and nodes crash and restart. Non-trivial: payload bytes arrived in at least one session."),
    "P02": dict(level="exploration", runs=[("p02", "asan", 1600), ("p02", "pool", 1600)],
                rule=TUNNEL_RULE + "No destructive fault. Non-trivial: payload bytes arrived in at least one session."),
    "P03": dict(level="exploration", runs=[("p03", "asan", 1200), ("p03", "pool", 1200)],
                rule="One run = random set of keys (prefixes, extensions and overlaps of one another among them), dedicated or shared port, and 1-12 tunnel clients whose first message is right or wrong in one "
                     "of many ways, whole or in pieces, alone or right after one another. Non-trivial: clients with accepted and with refused messages in the same run."),
    "P04": dict(level="exploration", runs=[("p04", "asan", 1600), ("p04", "pool", 1200)],
                rule="One run = 1-12 sessions asking for random addresses, ports and names (up to 255 bytes), or with commands, versions and address types that are not supported; targets accept, accept late, refuse, stay silent or are "
                     "unreachable. Non-trivial: at least two sessions with a defined outcome."),
    "P05": dict(level="exploration", runs=[("p05", "asan", 700), ("p05", "pool", 1300)],
                rule="One run = 3-43 rounds of sessions to 1-51 names over up to days of simulated time, aimed at the moments around the end of the lifetimes learned; addresses and lifetimes (0 to 2^31) change between rounds. "
                     "Non-trivial: an address was reused while fresh and a name was looked up again after its lifetime."),
    "P06": dict(level="exploration", runs=[("p06", "asan", 2400), ("p06", "pool", 2400)],
                rule="One run = 1-15 sessions, most of them to names; a random share of the lookups is disturbed by loss, delay up to 10 s, duplicates, 17 kinds of malformed answers, answers from other senders or to other queries, or by the "
                     "client leaving. Non-trivial: at least one lookup was disturbed."),
    "P07": dict(level="exploration", runs=[("p07", "asan", 2000), ("p07", "pool", 2000)],
                rule="One run = 1-150 misbehaving peers of nine kinds (tunnel clients, web clients, applications, silent ones, wrong protocols, damaged TLS, origins, name servers, tunnel servers) sending mutated, random, oversized and "
                     "incomplete input in random pieces and leaving at random moments; afterwards new sessions and requests must be served. Non-trivial: at least one of them got connected."),
    "P08": dict(level="exploration", runs=[("p08", "asan", 2000), ("p08", "pool", 2000)],
                rule="One run = one or two waves of up to 25 misbehaving peers as for P07 and up to 5 sessions that complete, are refused or get no answer; after the longest limit and the lifetime of cached names descriptors, TLS objects "
                     "and memory blocks are compared with those before. Non-trivial: at least one of the peers got connected."),
    "P09": dict(level="exploration", runs=[("p09", "asan", 1600), ("p09", "pool", 1800)],
                rule="One run = 2-121 connections of 13 kinds in all phases (silent, stopped in a handshake, target silent, stalled or slow readers, idle or incomplete web requests, sessions active in one or both directions at intervals up to just "
                     "below the limit), opened over 2-25 s. Activity is what the simulated kernel sees the node read, write or connect. Non-trivial: idle and active connections in the same run."),
    "P10": dict(level="exploration", runs=[("p10", "asan", 1500), ("p10", "pool", 1500)],
                rule="One run = 2-11 well-behaved sessions and some web requests among 1-100 misbehaving peers as for P07, with interrupted calls, aborted connections and failing accepts; each of the former must be complete within 8 s. "
                     "Non-trivial: at least one misbehaving peer got connected."),
    "P11": dict(level="exploration", runs=[("p11", "asan", 2400), ("p11", "pool", 2400)],
                rule="One run = 1-8 web clients on the plain and the secure port, each with 1-20 requests (files of 0 to 250 kB, indexes, missing and unreadable files, directories, echo of up to 16 kB, time), one by one or pipelined, in pieces or "
                     "whole, read fast or slowly; short reads, failing opens and reads, files that grow while being sent. Non-trivial: at least one complete response."),
    "P12": dict(level="exploration", runs=[("p12", "asan", 2400), ("p12", "pool", 2400)],
                rule="One run = 2-15 web clients with 1-4 requests each, most for targets that lead out of the web root: dot-dot segments in many spellings at chosen offsets of targets of up to 3900 bytes, absolute forms, sibling names. "
                     "Non-trivial: at least one response."),
    "P13": dict(level="exploration", runs=[("p13", "asan", 1500), ("p13", "pool", 1500)],
                rule="One run = 1-7 web clients as for P11, 1-8 tunnel clients with right and wrong keys and up to 3 clients with odd first bytes, all on the shared secure port, first bytes split at random. "
                     "Non-trivial: web responses and a tunnel session with a right key in the same run."),
    "P14": dict(level="exploration", runs=[("p14", "asan", 12000), ("p14", "pool", 12000)],
                rule="One run = the real supervisor over a simulated process table with 1 to 8 workers: one to five rounds of worker deaths (single, several at once, at birth), windows of failing forks (also at start), reloads and other signals at random times and right before a chosen system call; after each round, once the faults have ended, the configured number must be running within 15 s and never more at any fork. Non-trivial: at least one worker died."),
    "P15": dict(level="exploration", runs=[("p15", "asan", 7000), ("p15", "pool", 7000)],
                rule="One run = the supervisor as for P14 with reload and stop requests (signals or the -stop and -reload commands run by the second node) at random times and right before chosen system calls, one or two start-stop cycles, the pid file examined every 50 ms; or (one run in four) the process seen from the worker's side of a fork. Non-trivial: every completed run."),
    "P16": dict(level="exploration", runs=[("p16", "asan", 2000), ("p16", "pool", 2500), ("p16b", "pool", 400), ("p16b", "asan", 100)],
                rule="One run = sessions and web requests while single or several allocations, socket, accept, epoll and file calls fail at chosen positions or at a rate, or the descriptors run out, or (p16b) a crowd of up to 700 peers holds buffers of one kind. No more connections may suffer than calls failed, none may hang, and sessions and requests after it are served and leave nothing behind. Non-trivial: something was refused."),
    "P17": dict(level="exploration", runs=[("p17", "asan", 1500), ("p17", "pool", 2000)],
                rule="One run = sessions whose key, target and payload contain markers, through a link of which every byte is recorded; in part of the runs the other side of the link is a server without TLS, a client without TLS, or the link is reset at a chosen byte. Everything the nodes write to the link must be well-formed TLS records and must not contain a marker. Non-trivial: more than one record was seen on the link."),
    "P18": dict(level="exploration", runs=[("p18", "asan", 1500), ("p18", "pool", 2000)],
                rule="One run = a run as for P09 (two of three) or for P05 during which the wall clock is stepped up to 100 times by half a second to two years in either direction. Non-trivial: the clock was stepped."),
    "P19": dict(level="exploration", runs=[("p19", "asan", 8000), ("p19", "pool", 8000)],
                rule="One run = one start with a generated configuration (fields in any order, up to 200 kB, up to 199 ports) and key file (up to the largest size of 4096 bytes) with reads split and interrupted, in part of the runs with a damaged file, a failing call or allocation, or a torn write. Either everything configured is served and sampled keys are accepted, or the program ends with a failure status and leaves no pid file; damaged configurations must end that way. Non-trivial: always."),
    "P20": dict(level="exploration", runs=[("p20", "asan", 3000), ("p20", "pool", 4000)],
                rule="One run = sessions, web clients and requests with long and odd targets while log writes fail, are short or hit a full disk at a rate. Everything is served as without these faults; each record written has no byte after its text and the data of one request only. Non-trivial: a log record was written."),
}

HOOK_COMMITS = []

NOT_APPLICABLE = {
    "P21": "Pure functions of their arguments (hashing, list, heap and tree helpers, string and time formatting): no schedule, clock, fault or input stream can change "
           "the outcome, so a simulation adds nothing over a direct test of the function. Their effects on the running system are covered by the other properties.",
}
