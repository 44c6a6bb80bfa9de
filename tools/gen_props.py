#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook)))

NET="every finite sequence of datagram loss, duplication, delay and reordering"
p("C01","A reported upload success means the server holds exactly the sent bytes",
 "When a client reports that sending a file succeeded, the server holds, under the requested name, exactly the bytes of the source file, and the reported byte count equals its length. This holds for every combination of block size, window size, timeout option, encryption level, reading strategy and server flavour, and whatever the network lost, duplicated, delayed or reordered on the way.",
 ["schedules","fault_sequences","inputs","configurations"],
 "all file contents and lengths (including empty, and exact multiples of the block size), all option combinations, all interleavings, "+NET,
 "The repository's tests push a handful of files over a lossless loopback in one timing; no test loses, duplicates or reorders a datagram of a whole transfer.",
 ["src/client/sender.rs","src/server/helpers/write.rs","src/writers/single_block_writer.rs","src/readers","src/block_mapper.rs","src/client/connection.rs","src/server/multi_thread.rs","src/server/single_thread.rs"],
 [("in-order block writer with duplicate/gap detection","src/writers/single_block_writer.rs"),("retransmitting block readers","src/readers/*"),("option negotiation","src/client/connection.rs, src/server/extensions.rs")],
 ["exit status of the send command","content of the stored file at that instant"])
p("C02","A reported download success means the client holds exactly the served bytes",
 "When a client reports that receiving a file succeeded, the local file holds exactly the bytes of the served file, and the reported byte count equals its length. This holds for every combination of block size, window size, timeout option, encryption level, reading strategy and server flavour, and whatever the network lost, duplicated, delayed or reordered on the way.",
 ["schedules","fault_sequences","inputs","configurations"],
 "all file contents and lengths, all option combinations, all interleavings, "+NET,
 "The existing tests only receive over a lossless loopback; a lost option acknowledgement, a reordered first block or a duplicated last block is never exercised.",
 ["src/client/receiver.rs","src/client/connection.rs","src/server/helpers/read.rs","src/server/helpers/connection.rs","src/readers"],
 [("in-order block writer","src/writers/single_block_writer.rs"),("short block ends the transfer","src/client/receiver.rs"),("window resend","src/readers/multiple_block_reader.rs, src/readers/multiple_block_seek_reader.rs")],
 ["exit status of the receive command","content of the local file at that instant"])
p("C03","Transfers stay exact when block numbers wrap around",
 "A transfer of more blocks than fit in the protocol's 16-bit block number (more than 65535 blocks, any number of times over) delivers exactly the source bytes in either direction, for every window size and reading strategy. Late duplicates and retransmissions around the wrap are never taken for blocks of another round.",
 ["schedules","fault_sequences","inputs","configurations"],
 "file lengths of one, two and more rounds of 65536 blocks, all window sizes, losses, duplicates and delays placed around the wrap",
 "One large-file end-to-end test crosses the wrap without any loss; unit tests feed the mapper in order only.",
 ["src/block_mapper.rs","src/readers","src/writers/single_block_writer.rs","src/client/sender.rs"],
 [("mapping of 16-bit numbers to positions","src/block_mapper.rs")],
 ["content delivered by both ends"])
p("C04","Transfers complete within bounded time once the faults stop",
 "If loss, duplication, delay, partition and stalls stop before either side's request timeout has expired (with time left for the next repeat: within its first two fifths), every transfer in progress completes successfully within a bounded time after that. No pattern of losses leaves both ends waiting for each other. (The server repeats the last acknowledgement of a stored file for a bounded time only, at least one second and three retry periods; losses that outlast it may leave the client with a failure although the file is stored.)",
 ["schedules","fault_sequences","configurations"],
 "every fault sequence that ends before the request timeout, every phase of the transfer it can hit (request, option acknowledgement, first, middle and last block, final acknowledgement), every interleaving",
 "Liveness over fault schedules cannot be sampled by loopback tests, which never lose a packet.",
 ["src/client/connection.rs","src/client/sender.rs","src/client/receiver.rs","src/server/helpers","src/flow_control.rs","src/server/wait_control.rs"],
 [("request retry with backoff","src/client/connection.rs"),("block retry timer","src/server/helpers/read.rs, src/flow_control.rs"),("duplicate acknowledgement of the last good block","src/server/helpers/write.rs, src/client/receiver.rs")],
 ["completion and simulated time of every client command"])
p("C05","Vanished peers are given up in bounded time and everything they held is released",
 "A client whose server stops answering reports failure within its request timeout plus a bounded slack and never hangs. A server whose client stops answering gives the transfer up within its request timeout plus a bounded slack, and then serves new requests with the slot, sockets, threads and open files of the abandoned transfer all released; a client that only repeats what it already sent does not keep its transfer alive, nor does a server its download.",
 ["schedules","crash_points","fault_sequences"],
 "every point of a transfer at which the peer can vanish (crash, kill, permanent partition), in both directions and every server flavour",
 "No test kills a peer in the middle of a transfer, let alone at every point.",
 ["src/server/helpers/connection.rs","src/server/multi_thread.rs","src/server/single_thread.rs","src/client/sender.rs","src/client/receiver.rs"],
 [("client timeout","src/server/helpers/connection.rs"),("finished workers are reaped","src/server/multi_thread.rs"),("request timeout","src/client/*")],
 ["client exit time","descriptors and threads the server process holds","acceptance of a probe transfer"])
p("C06","No datagram can stop the server or disturb its other clients",
 "Whatever bytes arrive from the network, on the listening port or within a session, the server neither terminates, panics nor hangs, and it keeps serving well-formed clients correctly. The same holds for a client: no datagram from anyone makes it crash or hang.",
 ["inputs","schedules","histories"],
 "arbitrary, truncated, bit-flipped and protocol-aware malformed datagrams, in any number, from any source, at any point of any session, with encryption on and off",
 "Parser unit tests feed a few well-chosen packets to single functions; the whole server is never fed hostile input while it is serving.",
 ["src/packet.rs","src/encrypted_packet.rs","src/encryption.rs","src/server","src/client","src/lib.rs"],
 [("bounds-checked parsing","src/packet.rs"),("packets of unexpected type are skipped","src/server/helpers/*")],
 ["server process state","panics","results of well-formed clients running at the same time"])
p("C07","Concurrent clients are isolated from each other",
 "Clients served at the same time, in any mix of uploads and downloads, of the same or different files, each get exactly their own data. A client that stalls, misbehaves, fails or is cut off does not corrupt, fail or starve any other client's transfer.",
 ["schedules","histories","fault_sequences"],
 "all mixes of up to a dozen concurrent clients, all interleavings of their packets, faults confined to some of them",
 "Concurrency is tested with one scheduling on an idle loopback; interleavings are not controlled.",
 ["src/server/multi_thread.rs","src/server/single_thread.rs","src/readers/pool_reader.rs","src/map.rs"],
 [("one worker per connection","src/server/multi_thread.rs"),("round-robin over connections","src/server/single_thread.rs"),("reader pool","src/readers/pool_reader.rs")],
 ["content and exit status of each client"])
p("C08","Negotiated options bound what is put on the wire",
 "The server acknowledges only options the client asked for, with values the protocol allows (never larger block or window than asked, size and timeout unchanged), and the client never proceeds with a larger block or window than it asked for. After negotiation every data block except the last has exactly the agreed size, never more blocks are outstanding beyond the last acknowledged one than the agreed window, and the announced transfer size equals the bytes actually transferred.",
 ["inputs","schedules","fault_sequences","configurations"],
 "all option combinations and values, both directions, all loss and reorder sequences, retransmissions included",
 "Unit tests check the parser of options; the bytes actually sent during lossy transfers are never compared with what was agreed.",
 ["src/server/extensions.rs","src/client/extensions.rs","src/readers","src/server/helpers/read.rs","src/client/sender.rs"],
 [("option clamping","src/server/extensions.rs"),("option validation","src/client/extensions.rs"),("window accounting","src/readers/*")],
 ["datagrams on the simulated wire"])
p("C09","Size limits are enforced",
 "An upload larger than the server's file size limit, whether announced or not, is refused and never reported as success, and a download larger than the client's limit is never reported as success; files within the limit are unaffected. Not more than the limit is ever stored.",
 ["inputs","configurations","schedules"],
 "all limits around the file size (one byte either side, block boundaries), announced, unannounced and falsely announced sizes, all window sizes, lossy networks",
 "Only one announced size is tested, over loopback; sizes that are not announced or wrongly announced are not.",
 ["src/server/validation.rs","src/server/helpers/write.rs","src/client/receiver.rs"],
 [("announced size check","src/server/validation.rs"),("running size check","src/server/helpers/write.rs, src/client/receiver.rs")],
 ["stored length","exit status"])
p("C10","Only holders of authorized keys are served",
 "A server configured with authorized keys lets only clients that prove possession of an authorized private key read or write any file. Nobody else, whatever they make up (no key, an unlisted key, a listed public key without its private key, stripped, replaced or mismatched signatures, downgraded encryption), obtains file content, creates or changes a file, or occupies a connection. A server told to answer errors to authorized clients only (the default when it requires full encryption) sends nothing at all to anybody else.",
 ["inputs","configurations","histories"],
 "all malformed and adversarial request variants, all encryption levels, interleaved with legitimate clients",
 "Tests check one authorized and one unauthorized client; adversarial requests are not generated.",
 ["src/server/extensions.rs","src/server/connection_builder.rs","src/key_management.rs","src/encrypted_packet.rs"],
 [("authorized key and signature check","src/server/extensions.rs")],
 ["server directory","datagrams sent to the unauthorized peer"])
p("C11","Required encryption is never silently downgraded and content never leaks",
 "When a client requires encryption, no datagram of the transfer carries file content in clear (and, when it also knows the server's key at protocol level, not the file name either, also when the request is refused), and the transfer fails rather than proceeds if the other side does not encrypt (what a server sends to requests whose options an attacker removed on the way is up to that server's own requirements). A server that requires full encryption never serves a request that is not fully encrypted. No two datagrams of an end are encrypted with the same nonce.",
 ["inputs","schedules","fault_sequences","configurations"],
 "all encryption levels on both ends, peers and middlemen that strip, drop or reorder the negotiation, all packet losses",
 "Tests check that encrypted transfers work, not that nothing leaks when the negotiation is lost, stripped or reordered.",
 ["src/client/connection.rs","src/client/extensions.rs","src/client/encryption_socket.rs","src/client/encryption_socket_builder.rs","src/server/extensions.rs","src/server/connection.rs","src/server/helpers/connection.rs"],
 [("encryption level negotiation","src/client/extensions.rs, src/server/extensions.rs"),("encrypting sockets","src/client/encryption_socket.rs, src/server/connection.rs")],
 ["every datagram on the simulated wire","exit status"])
p("C12","Tampering with encrypted traffic cannot change or truncate what is delivered",
 "In an encrypted session, modified, truncated, forged, replayed or cross-session datagrams never alter, truncate or extend content that an end reports as successfully transferred, and never crash either end; genuine traffic still gets through. At protocol level this covers every packet of the session, at data level the content of each data packet but not its block number.",
 ["inputs","schedules","fault_sequences"],
 "any number of bit flips, truncations, replays and forgeries by a middleman at any point after the keys are agreed, both directions, all encrypted levels",
 "Cipher unit tests flip bits of single buffers; no test tampers with a running session.",
 ["src/encryption.rs","src/encrypted_packet.rs","src/client/encryption_socket.rs","src/server/connection.rs"],
 [("authenticated encryption of packets","src/encryption.rs, src/encrypted_packet.rs"),("undecryptable packets are ignored","src/server/connection.rs, src/client/encryption_socket.rs")],
 ["delivered content","exit status","panics"])
p("C13","Storage errors never turn into silent success",
 "If the disk is full, or a read, write, open or directory creation fails, at any point, on either side, then the affected transfer is reported as failed or its content is nevertheless exact: success is never reported over missing, truncated or altered bytes. Short reads and short writes, which the operating system may return at any time and which pipes return routinely, do not shorten or corrupt the file.",
 ["fault_sequences","schedules","inputs"],
 "every operation of every file at which the storage can fail (full disk, I/O error, short read, short write, failed open), on client and server, in both directions",
 "No test injects a storage failure during a transfer.",
 ["src/writers/single_block_writer.rs","src/readers","src/server/helpers/read.rs","src/server/helpers/write.rs","src/client/sender.rs","src/client/receiver.rs","std-binary/src/io.rs"],
 [("storage errors end the transfer with an error packet","src/server/helpers/*"),("storage errors are returned","src/client/*")],
 ["exit status against stored bytes"])
p("C14","Nothing outside the served directory can be read, created or changed",
 "Whatever file name a request carries (parent references, absolute paths, repeated and mixed separators, symbolic links in the served tree, odd bytes, excessive depth or length), the server only ever reads, lists, creates or modifies files inside the directory it was told to serve. Requests that resolve outside are refused without any effect outside, and so are names deeper than the configured maximum.",
 ["inputs","histories","configurations"],
 "all request names built from hostile path components, over directory trees with files, directories and symbolic links in and out of the root, for reads, listings and writes, with and without overwriting",
 "A dozen path strings are unit-tested against the normaliser; real requests over trees with links are not.",
 ["src/server/validation.rs","std-binary/src/io.rs"],
 [("name normalisation","src/server/validation.rs"),("canonical path check","std-binary/src/io.rs")],
 ["file system operations of the server process","content sent to the peer","tree outside the root"])
p("C15","Without overwrite permission existing files are never touched",
 "A server not told to allow overwriting never changes, truncates or replaces a file that already exists, even when several clients race to create the same name, requests are duplicated or the server crashes in between. At most one of any number of racing uploads to one new name is stored, and its content is that one upload's.",
 ["schedules","histories","fault_sequences","crash_points"],
 "all races of uploads to one name, duplicated and delayed requests, crashes and restarts, every server flavour",
 "The tests upload one file at a time; races and duplicated requests are not exercised.",
 ["std-binary/src/io.rs","src/server/multi_thread.rs","src/server/single_thread.rs"],
 [("exclusive creation","std-binary/src/io.rs")],
 ["stored files after each step"])
p("C16","A file synchronised while it is being written arrives complete",
 "In synchronisation mode every file created in the watched folder and then completely written and closed arrives at the server with exactly its final content, whether sending starts at creation or at close, and however the writer's writes, pauses (shorter than the request timeouts) and the final close interleave with reading and sending.",
 ["schedules","inputs","histories"],
 "all interleavings of the writer's appends and close with the reader, all chunk sizes, several files at once, including lossy networks",
 "One end-to-end test with fixed sleeps; the race between the last read and the close is never hit deliberately.",
 ["std-binary/src/sync.rs","std-binary/src/blocking_reader.rs","src/client/sender.rs"],
 [("blocking reader with end-of-file flag","std-binary/src/blocking_reader.rs"),("watcher","std-binary/src/sync.rs")],
 ["server content after the client is done"])
p("C17","Files encrypted at rest decrypt to the original, and only with the key",
 "A file sent with a file encryption key is stored only in encrypted form, never twice as the same bytes, and receiving it with the same key and block size yields exactly the original bytes, under any network and storage faults and for any length and block size. With another block size it is refused. Receiving with another key, or a stored file that was altered or cut, never yields a success with different content.",
 ["inputs","schedules","fault_sequences"],
 "all lengths and block sizes, all short reads and writes, all lossy networks, all corruptions and truncations of the stored file",
 "Unit tests use in-memory buffers with full reads; a lossy round trip through a server and damaged files are not tested.",
 ["src/readers/encrypted_stream_reader.rs","src/writers/encrypted_stream_writer.rs","src/encryption.rs","std-binary/src/encryption_io.rs"],
 [("stream cipher with per-block tags","src/encryption.rs, src/readers/encrypted_stream_reader.rs, src/writers/encrypted_stream_writer.rs")],
 ["stored bytes","received bytes","exit status"])
p("C18","Standard peers interoperate",
 "A peer that follows the TFTP standards but knows none, or only some, of the options can exchange files with this client and this server, both ways, with exact content; encryption and other extensions that the peer ignores do not get in the way unless they are required. A server that answers from a fresh port, as the standard prescribes, is accepted when port change is allowed.",
 ["inputs","configurations","schedules","fault_sequences"],
 "independent reference peers with every subset of supported options, any file length, both directions, lossy networks",
 "Interoperation with other implementations is not tested in the repository.",
 ["src/client/connection.rs","src/client/receiver.rs","src/client/sender.rs","src/server/extensions.rs","src/packet.rs"],
 [("fallback without options","src/client/connection.rs"),("options ignored by the peer","src/client/extensions.rs")],
 ["exit status","content on both sides","what the reference peer saw"])
p("C19","The connection limit holds and never wedges the server",
 "A server never serves more clients at once than its connection limit. Requests beyond the limit disturb nobody, and within a bounded time after a served client finishes or is given up its place can be used again, indefinitely.",
 ["schedules","histories","fault_sequences"],
 "all arrival patterns of more clients than the limit, all mixes of finishing, failing and vanishing clients, every server flavour",
 "The limit is never reached in any test.",
 ["src/server/multi_thread.rs","src/server/single_thread.rs","src/readers/readers_available.rs","src/readers/pool_reader.rs"],
 [("limit check on new requests","src/server/multi_thread.rs, src/server/single_thread.rs")],
 ["sessions concurrently open on the server","completion of waiting clients"])
p("C20","A server crash and restart never yields a false success",
 "If the server is killed at any point and started again on the same address and directory, a client that reports success has its file completely and exactly stored (or received), and the restarted server serves new transfers normally. Packets of sessions from before the crash do not corrupt files handled after it.",
 ["crash_points","schedules","histories"],
 "every point of every transfer at which the server can be killed, any restart delay, any traffic still in flight from the earlier life",
 "No test restarts a server during a transfer.",
 ["src/server/multi_thread.rs","src/server/single_thread.rs","src/client/sender.rs","src/client/receiver.rs"],
 [("sessions bound to the peer address","src/server/*"),("acknowledgement only after writing","src/server/helpers/write.rs")],
 ["exit status against stored files","transfers after the restart"])
p("C21","Duplicates and delays do not multiply traffic",
 "Duplicated or late packets never make the two ends multiply their traffic: on a network that keeps the order of packets, however many of them are duplicated, each data block is sent at most a small constant number of times, and a lost or overtaken packet costs at most about one window of repeated blocks, or one per retry period while nothing gets through. Traffic stops when the transfer is over.",
 ["schedules","fault_sequences"],
 "all duplication and delay patterns of acknowledgements and data, all window sizes, both directions",
 "The number of packets sent is never counted by any test, and duplicates never occur on loopback.",
 ["src/readers","src/server/helpers/read.rs","src/server/helpers/write.rs","src/client/receiver.rs","src/client/sender.rs"],
 [("duplicate acknowledgements do not trigger sends","src/readers/*"),("retry timers with backoff","src/server/helpers/read.rs, src/flow_control.rs")],
 ["datagrams on the simulated wire"])
p("C22","Packets from a third party cannot influence a transfer",
 "Once a transfer is established, datagrams from any address other than the peer's have no effect on it on either side, answers from any other host do not establish one, and a client that does not allow the server to change its port proceeds only with the address it contacted. A server told to change port serves each transfer from a fresh port.",
 ["inputs","schedules","histories"],
 "well-formed data, acknowledgement, error and option packets from wrong addresses or ports, at any point of any unencrypted transfer",
 "No test sends packets from a third address.",
 ["src/client/connection.rs","src/client/sender.rs","src/client/receiver.rs","src/server/connection_builder.rs","std-binary/src/socket.rs"],
 [("endpoint comparison","src/client/sender.rs, src/client/receiver.rs"),("connected session sockets","std-binary/src/socket.rs")],
 ["content and exit status of the attacked transfer"])
p("C23","Directory listings are complete and confined",
 "When listing is enabled, requesting the listing name in any directory under the root returns exactly the names of that directory's entries, one per line, relative to the root, with directories marked, however the transfer is disturbed. When it is not enabled no listing is given.",
 ["inputs","schedules","fault_sequences","configurations"],
 "all directory trees, all block and window sizes, lossy networks",
 "One end-to-end test lists one directory over loopback.",
 ["std-binary/src/io.rs"],
 [("listing reader","std-binary/src/io.rs")],
 ["received listing"])
p("C24","Clock steps neither crash nor corrupt",
 "When the wall clock is stepped forwards or backwards by any amount at any time, or a process is suspended for any time, neither server nor client crashes or hangs, no content is corrupted, and the server keeps serving new transfers. Builds that measure time with a monotonic clock do not even notice wall clock steps.",
 ["schedules","fault_sequences","configurations"],
 "every instant at which the wall clock can be stepped, forwards and backwards, and every instant and length of process suspension",
 "Tests run on the real clock, which never steps.",
 ["src/std_compat.rs","std-binary/src/io.rs","src/server/helpers/connection.rs","src/flow_control.rs"],
 [("elapsed time from a clock callback","src/std_compat.rs, std-binary/src/io.rs")],
 ["process state","content","exit status"])
p("C25","A pinned or remembered server key is enforced",
 "A client that was given the server's public key, or remembered it from an earlier contact, never completes an encrypted transfer with a server that does not hold the matching private key when it asks for full protocol encryption or identifies itself with a key of its own. A client with a known-hosts file records the key of a server that proves one, and never overwrites a recorded key.",
 ["inputs","histories","configurations"],
 "impostor servers and middlemen with other keys, at every encryption level, all histories of first and later contacts",
 "Tests contact one honest server; no impostor is ever present.",
 ["src/client/connection.rs","src/client/encryption_socket_builder.rs","src/key_management.rs","std-binary/src/encryption_io.rs"],
 [("comparison with the expected key","src/client/connection.rs"),("known hosts file","src/key_management.rs, std-binary/src/encryption_io.rs")],
 ["exit status","known hosts file"])
p("C26","Reused client ports start fresh transfers",
 "A client may start a new transfer from the same address and port after an earlier one ended, successfully or not, and the server has finished with it or given it up; the new transfer completes with its own exact content and nothing of the earlier session leaks into it.",
 ["schedules","histories","fault_sequences"],
 "all sequences of transfers from one port, any gap between them, late packets of earlier sessions, lossy networks",
 "One end-to-end test reuses a port once over loopback without late packets.",
 ["src/server/multi_thread.rs","src/server/single_thread.rs","std-binary/src/socket.rs"],
 [("finished sessions are reaped before a request is looked up","src/server/multi_thread.rs, src/server/single_thread.rs")],
 ["content and exit status of consecutive transfers"])
p("C27","Memory stays bounded and is given back",
 "The memory a server or client needs for a transfer depends on the agreed block and window size and not on the length of the file, the memory of a server is bounded by its connection limit, and what a transfer, a refused request or a malformed datagram needed is given back after it: any number of them, one after the other, does not make an idle server or a synchronising client hold more.",
 ["schedules","histories","fault_sequences","configurations"],
 "all file lengths, windows, readers and feature sets, all sequences of completed, refused, abandoned and malformed sessions, any losses and duplicates",
 "Tests look at results of single small transfers and end before anything could add up; memory is not measured.",
 ["src/readers/multiple_block_reader.rs","src/readers/pool_reader.rs","src/server/multi_thread.rs","src/server/single_thread.rs","std-binary/src/sync.rs","std-binary/src/blocking_reader.rs"],
 [("buffers of a window are used again","src/readers/multiple_block_reader.rs, src/readers/pool_reader.rs"),("finished sessions are removed","src/server/multi_thread.rs, src/server/single_thread.rs")],
 ["bytes of heap memory held by each process, idle and at most"])
p("C28","Refusals and failures are told to the other end at once",
 "When a server refuses a request of a client it may answer (no such file, a file that must not be replaced, too large, a key that is not listed; where errors are for authorized clients only, those clients still get them) or cannot continue a transfer (storage error, upload larger than the limit), it tells the client with an error: where that error is delivered the client fails within a few round trips and does not wait for its timeout. An end that receives an error from its peer gives the transfer up at once, and a server releases what the transfer held.",
 ["schedules","inputs","fault_sequences","configurations"],
 "all causes of refusal, all operations at which storage may fail, all moments at which a peer may abort, all options and encryption levels, authorized keys with and without hidden errors",
 "Tests look at single return values of the parts; when an answer arrives, and that it is understood in every combination of encryption levels, is not tested.",
 ["src/server/connection_builder.rs","src/server/helpers/read.rs","src/server/helpers/write.rs","src/client/connection.rs","src/client/sender.rs","src/client/receiver.rs"],
 [("replies to refused requests","src/server/connection_builder.rs reply_with_error"),("errors end sessions","src/server/helpers/read.rs, src/server/helpers/write.rs")],
 ["time at which the other end gives up","sockets, threads and files held after an abort"])
p("C90","Packets survive encoding and decoding",
 "Every packet that can be represented encodes to bytes that decode to an equal packet.",
 ["inputs"],"all packets","Unit tests encode a few packets.",
 ["src/packet.rs"],[("byte conversion","src/packet.rs")],["decoded packet"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P:
        if not x["anchors"]["state"]: del x["anchors"]["state"]
        f.write(json.dumps(x)+"\n")
