"""What each check runs: configurations with their shares, time budgets (quick, thorough)."""
FEATURES = {
    # the shipped binaries: threads and heap; one thread, no heap, encryption; one thread, heap; one thread, no heap
    "mt": "alloc,std,encryption,multi_thread,seek,sync,metrics",
    "stackenc": "encryption,seek",
    "alloc": "alloc,seek",
    "stack": "seek",
}
STUBS = ("kernel interface only: sockets and network, epoll/eventfd, clocks, threads and locks, inotify, "
         "randomness, read/write/seek fault layer over a scratch directory; log sink is a recorder")
ASSUMPTIONS = [
    "tasks switch only at libc calls and at drawn pre-emption points in them; data races between plain memory accesses are out of reach",
    "the local file system below the fault layer behaves as Linux tmpfs does",
]
ALL = {"mt": 4, "stackenc": 3, "alloc": 2, "stack": 2}
TWO = {"mt": 3, "stackenc": 2}
ENC = {"mt": 3, "stackenc": 2}

def P(rule, cfgs=ALL, thorough=ALL, secs=(30, 900), **kw):
    return dict(rule=rule, cfgs=cfgs, thorough_cfgs=thorough, secs=secs, **kw)

PLAN = {
    "C01": P("A seeded scenario: one upload with random block size, window, retry timeout, encryption level, reader, file size, "
             "server options, network fault profile and scheduling. Non-trivial: the client reported success and at least one fault was injected.", cfgs=ALL),
    "C02": P("A seeded scenario: one download with random block size, window, retry timeout, encryption level, reader, file size, "
             "server options, network fault profile and scheduling. Non-trivial: the client reported success and at least one fault was injected.", cfgs=ALL),
    "C03": P("A seeded scenario: one upload or download of one to three rounds of 65536 blocks with random window and reader; losses, duplicates and "
             "delays of datagrams with block numbers near the wrap. Non-trivial: the transfer completed and at least one fault was injected.", secs=(60, 900)),
    "C04": P("A seeded scenario: one transfer in either direction under one kind of trouble that ends before any request timeout (a few chosen losses, an outage in one or both "
             "directions, a stalled process, a lossy period, several outages) placed at a random phase. Non-trivial: the transfer completed and at least one fault was injected."),
    "C05": P("A seeded scenario: a server or one to three clients vanish (killed, cut off, silent with the socket open) at a random moment of a transfer; afterwards a new transfer. "
             "Non-trivial: at least one such event was injected."),
    "C07": P("A seeded scenario: several well-behaved clients at once with disturbers on other hosts (loss, kills, slow, hanging, aborting and fuzzing peers, rivals for a name). "
             "Non-trivial: at least two transfers succeeded."),
    "C06": P("A seeded scenario: a server receives a stream of malformed, contradictory, oversized, out-of-order, mutated and replayed datagrams from one or several hostile hosts, "
             "or a client talks to a server that sends such; genuine transfers run before, during and after. Non-trivial: more than four datagrams were exchanged.", cfgs=ALL),
    "C08": P("A seeded scenario: one or two transfers between the shipped programs or against an independent strict implementation with random (also absurd) option requests and server limits, "
             "or a server that answers with option values it must not; the wire history is checked against the negotiated values. Non-trivial: a transfer succeeded.", cfgs=ALL),
    "C09": P("A seeded scenario: files around random size limits, announced, unannounced or announced wrongly, uploaded to a limited server or downloaded by a limited client, over existing files or not. "
             "Non-trivial: more than four datagrams were exchanged.", cfgs=ALL),
    "C10": P("A seeded scenario: a server with one to three authorized keys and an attacker (shipped client with no or an unlisted key, handmade requests with every combination of key and signature options, "
             "a man in the middle that strips, replaces or downgrades options, junk), usually with a holder beside or after it. Non-trivial: more than four datagrams were exchanged.", cfgs=ENC, thorough=ENC),
    "C11": P("A seeded scenario: a client that requires encryption against encrypting servers, servers that know nothing of it or deny it, and a man in the middle that strips or weakens options; or a server that "
             "requires full encryption against every client level. Every datagram is scanned for content and names. Non-trivial: a transfer succeeded.", cfgs=ENC, thorough=ENC),
    "C12": P("A seeded scenario: an encrypted transfer (data, protocol or full) whose datagrams are modified, truncated, reflected, replayed (within the session or from another) or joined by forged ones. "
             "Non-trivial: the transfer succeeded and at least one datagram was tampered with.", cfgs=ENC, thorough=ENC),
    "C13": P("A seeded scenario: one or two transfers with short reads and writes, interrupted calls, failing opens, reads and writes (once or from a moment on) and a full disk on either end. "
             "Non-trivial: a transfer succeeded and at least one such fault was injected.", cfgs=ALL),
    "C14": P("A seeded scenario: requests of any kind for names with parent steps, absolute and deep paths, links, separators, control characters, too long and not UTF-8 names, in a directory with links pointing outside; "
             "every path the server opens is resolved and compared with its root. Non-trivial: more than four datagrams were exchanged.", cfgs=ALL),
    "C15": P("A seeded scenario: two to four clients that write, or write and read, the same name at the same or nearly the same time, with failures and a shared or fresh name. "
             "Non-trivial: more than four datagrams were exchanged.", cfgs=ALL),
    "C19": P("A seeded scenario: a server with a limit of one to three clients (or its build limit) and more clients than that, or a long series of clients, with hanging clients occupying places. "
             "Non-trivial: at least two transfers succeeded."),
    "C20": P("A seeded scenario: one to six transfers with the server killed and restarted one to three times at random moments under a random network. "
             "Non-trivial: a transfer succeeded and at least one fault was injected."),
    "C24": P("A seeded scenario: one transfer with steps of the wall clocks (microseconds to a year, both ways) and suspensions of either process (up to a day) at random moments, then another transfer. "
             "Non-trivial: a transfer succeeded and at least one step or suspension was injected."),
    "C26": P("A seeded scenario: two to five transfers one after the other from one client port, ending well, refused, killed or aborted, with duplicates and delays shorter than the gap. "
             "Non-trivial: at least two transfers succeeded."),
    "C16": P("A seeded scenario: the shipped client in synchronisation mode (start at creation or at close, any block duration) and one or two programs that write several files into the watched tree in pieces with pauses "
             "and a late close, with losses or duplicates. Non-trivial: more than four datagrams were exchanged.", cfgs={"mt": 1}, thorough={"mt": 1}),
    "C17": P("A seeded scenario: a file uploaded encrypted at rest, then damaged or not, cut, extended, reordered, mixed with another, fetched with the right key, a wrong key, another block size or none, "
             "under a random network. Non-trivial: a transfer succeeded and at least one fault was injected.", cfgs=ENC, thorough=ENC),
    "C18": P("A seeded scenario: an independent strict implementation of the standards as client against the shipped server, or as server (with any subset of options, that may refuse them) against the shipped client; "
             "every datagram is checked for form. Non-trivial: a transfer succeeded.", cfgs=ALL),
    "C21": P("A seeded scenario: one transfer on a network that keeps the order but duplicates any share of the datagrams, delays a few of them, or loses a few; data packets are counted for each block. "
             "Non-trivial: the transfer succeeded and at least one fault was injected.", cfgs=ALL),
    "C22": P("A seeded scenario: established transfers in plain text with other hosts and ports injecting well-formed packets of the session into both ends, a server that answers from another port, and port change requirements. "
             "Non-trivial: the transfer succeeded and at least one foreign packet was injected."),
    "C23": P("A seeded scenario: a directory tree and requests for its listing in any directory with random block size and window on a lossy network, with listing enabled or not. Non-trivial: a transfer succeeded.", cfgs=ALL),
    "C25": P("A seeded scenario: clients that pin a server key (option or known hosts file) against the holder, another server, a man in the middle, unsigned or wrongly signed answers; recording on first use. "
             "Non-trivial: more than four datagrams were exchanged.", cfgs=ENC, thorough=ENC),
    "C27": P("A seeded scenario: one long transfer under losses, duplicates or delays; more clients than the connection limit at once; or rounds of completed, refused, abandoned, malformed and listed sessions, or of "
             "synchronised files, with the memory of the server noted after each. Every allocation is charged to the simulated process that asked for it. Non-trivial: more than four datagrams were exchanged."),
    "C28": P("A seeded scenario without losses: a request to be refused (no such file, a file that exists, a directory, too large, an unlisted key), with and without authorized keys; a storage error at a seeded operation of the server; "
             "an upload outgrowing the limit; a peer that aborts with an error after a seeded number of blocks. Non-trivial: more than one datagram was exchanged.", cfgs=ALL),
}
