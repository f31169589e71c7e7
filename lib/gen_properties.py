#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run by hand; the output is committed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- kvpsync / dns
prop("K01", "A DNS replica never gives a wrong confident answer",
 "Whatever the network between sender and replica loses, duplicates, delays or reorders, and whichever side restarts, a replica answers a lookup with a value only if the sender held that value for that key, and with a confident \"no\" only while it is fully synchronised and inside an OK period the sender granted; in every other case it answers unsure (or with a value it still legitimately holds). Once the sender has reported an insert as acknowledged by the replica, that replica never answers that key with a confident \"no\" or with an older value until the sender deletes or replaces the key. A deleted key never comes back because of a stray copy of an old packet.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of add/delete/replace, packet loss, duplication, delay, reordering, sender resync, sender restart, replica restart, and clock advance",
 "test_send/test_recv drive each half with one hand-written packet sequence; the two halves are never run against each other and no test reorders, duplicates or delays packets across a resync",
 ["server/libkvpsync/send.c","server/libkvpsync/recv.c","server/libkvpsync/PROTOCOL"],
 [("deletions tracked as tombstone data, garbage collected after a delay","server/libkvpsync/recv.c"),
  ("flush switches to the new sync id and drops other sync ids","server/libkvpsync/recv.c"),
  ("ok_expiry bounded by the oldest unacked insert","server/libkvpsync/send.c")],
 [("sync_id/recv_id/ok_expiry","which synchronisation the replica serves and until when negatives are confident","server/libkvpsync/recv.h")],
 ["kvpsync_recv_get_value","kvpsync_recv_handle_update","kvpsync_send_run","kvpsync_send_handle_ack"])

prop("K02", "kvpsync reconverges and acknowledges each insert once",
 "Whenever packets start flowing again, within a bounded time the sender finishes its (re)synchronisation, the replica serves exactly the sender's key-value map with confident negatives, and the sender reports the peer as OK. Every insert that is not deleted or replaced first is reported acknowledged exactly once, only after the replica really received it, and never after its deletion. The sender always asks to be run again by a deadline, keeps the OK period from lapsing while the replica responds, never has more packets in flight than its congestion window allows, and never extends an OK period beyond 15 seconds from its own clock or past the deadline of the oldest unacknowledged insert.",
 ["schedules","fault_sequences","histories"],
 "all finite loss/duplication/reorder prefixes followed by a healthy period, with adds, deletes and restarts at any point",
 "test_send checks a handful of scripted acks; no test has an unreliable channel, and nothing checks recovery after an arbitrary fault prefix",
 ["server/libkvpsync/send.c","server/libkvpsync/recv.c"],
 [("fault-time resend and unresponsive-peer reset","server/libkvpsync/send.c"),
  ("START, INSERTs, FLUSH phases","server/libkvpsync/send.c"),
  ("calculate_ok_expiry","server/libkvpsync/send.c")],
 observe=["kvpsync_send_run","add_key callback","state callback","kvpsync_recv_get_value"])

prop("K03", "A challenge is reported ready only when DNS replicas serve it",
 "A subscriber to the challenge-publication service is told its challenge is ready only if at that moment the published challenge equals the one it named, that publication has been acknowledged by every replica that is healthy at that moment, and at least one replica that was healthy then or earlier. Each subscriber ends in exactly one way: ready, a timeout reply after 60 seconds, or its connection is closed because it misbehaved or because its challenge was replaced or deleted. Every challenge added, changed or removed in the database reaches every replica's sender after the next scan, whatever order updates, scans, acks and disconnects happen in.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of subscriber connects, partial reads, disconnects, database changes, update hints, periodic scans, acks, peer up/down transitions and timeouts",
 "test_kvpsend walks a few fixed scripts with fixed peers; interleavings of scans, hints, peer transitions and disconnects are not explored",
 ["server/kvpsend/kvpsend.c","server/kvpsend/kvpsend.h"],
 [("per-peer entry ready flags combined with okmask","server/kvpsend/kvpsend.c"),
  ("full scan merge against the sorted entry tree","server/kvpsend/kvpsend.c"),
  ("timeout list ordered by deadline","server/kvpsend/kvpsend.c")],
 observe=["subscriber_respond","subscriber_close","sender_send_pkt"])

prop("K04", "DNS queries get exactly the zone's policy answer",
 "For every well-formed query packet the server sends exactly the response the zone policy prescribes (no response at all for non-queries, foreign domains, other classes or odd question counts; not-implemented for unsupported types; name error for names outside the zone's shape; NODATA with SOA for existing names without that type; the fixed A/AAAA/NS/SOA/CAA records; and for acme challenge names the replica's value, a NODATA for a confident no, or a server failure when unsure), case-insensitively, echoing id, question and RD. Malformed packets never get a response, and no packet makes the server read outside it. A response never exceeds the size limit of the query (512 bytes, or the EDNS size up to the server's own cap), is complete, well-formed, and its section counts match its content.",
 ["inputs","configurations"],
 "all combinations of header flags, counts, label shapes, types, classes, EDNS options, truncated and garbage packets, and replica states",
 "test_dns/test_parse/test_write cover a few packets each",
 ["server/dns/dns.c","server/dns/parse.c","server/dns/write.c","server/dns/main.c"],
 [("sort_pkt decision table","server/dns/dns.c"),("positive_resp/negative_resp","server/dns/dns.c"),("parse_pkt","server/dns/parse.c")],
 observe=["handle_packet"])

prop("K05", "DNS rate limit is per client and per second, replicas are merged safely",
 "Within any one second of the server's clock a client address (for IPv6: a /64 network) is let through at most eight times and, unless it shares one of the finite number of buckets or collides with its own traffic 32 seconds earlier, is never refused before its eighth (in a never used bucket: seventh) query, however other addresses behave and wherever the second falls. When several replicas are configured, a lookup prefers any replica's value, then a confident no, then unsure, and packets are only accepted from configured peers. Packet buffers are never lost or handed out twice: after any pattern of bursts, send errors and drops the server keeps receiving.",
 ["histories","schedules","configurations"],
 "all query schedules over several addresses and seconds, all combinations of peer replica states, all orders of receive, buffer exhaustion and send completion",
 "test_rrl checks one address in a row; test_main covers single exchanges",
 ["server/dns/rrl.c","server/dns/main.c","server/dns/membuf.c"],
 [("5-bit window and 3-bit counter per bucket","server/dns/rrl.c"),("recv_stop/recv_start around the membuf pool","server/dns/main.c"),("globals_kvp_iget","server/dns/main.c")],
 observe=["rrl_check","udp_send","recv_start/recv_stop"])

# ---------------------------------------------------------------- imaildir
prop("M01", "Every IMAP session's view is a consistent mailbox history",
 "The untagged responses a mail client receives always describe one consistent mailbox: applying EXISTS, EXPUNGE and FETCH in order gives sequence numbers that are exactly the positions of the session's messages in UID order, and every later FETCH, SEARCH, STORE or COPY is answered against that same numbering. Changes made by the upstream server or by other sessions of the same mailbox show up in every session exactly once, in the order they happened, no later than its next NOOP or CHECK, and expunges are never announced while a sequence-numbered FETCH, STORE or SEARCH is being answered. After all updates are delivered, all sessions agree with each other and with the stored mailbox.",
 ["schedules","histories"],
 "all interleavings of several sessions' commands with upstream deliveries, flag changes and expunges",
 "test_imaildir and the e2e tests run one or two sessions through fixed scripts and cannot cover interleavings of pending updates",
 ["libimaildir/dn.c","libimaildir/imaildir.c"],
 [("per-session message views and pending updates","libimaildir/dn.c"),("gather order FETCH, EXPUNGE, EXISTS","libimaildir/dn.c"),("imaildir distributes updates to accessors","libimaildir/imaildir.c")],
 observe=["dn_* responses"])

prop("M02", "Local UIDs are never reused and survive restarts and crashes",
 "Within one local UIDVALIDITY each message the mail client sees keeps its UID for ever, UIDs are handed out in increasing order, and a UID is never given to another message, across syncs, expunges, restarts and crashes at any point. A message never changes content under a UID. If that cannot be kept, the local UIDVALIDITY changes.",
 ["histories","crash_points"],
 "all histories of downloads, local appends, copies, expunges, cache compactions, restarts and crash points between any two file-system operations",
 "tests restart cleanly at a few points only; no test kills the process between two file-system operations",
 ["libimaildir/imaildir.c","libimaildir/log.c","libimaildir/log_file.c","libimaildir/name.c"],
 [("hi_uid_dn/hi_uid_local recovery","libimaildir/imaildir.c"),("append-only log with fsync and atomic compaction","libimaildir/log_file.c"),("UIDs encoded in file names","libimaildir/name.c")],
 observe=["FETCH UID/BODY via dn_t after reopen","files in cur/ and .cache"])

prop("M03", "A crash never loses or resurrects mail",
 "If the process dies at any instant, reopening the mailbox succeeds and shows a state the mailbox legitimately had: every message whose download or local append was reported complete is still there with its content, acknowledged flag changes are kept, a message whose expunge was completed does not come back, messages half downloaded are simply downloaded again, and a wipe caused by a changed upstream UIDVALIDITY is either not started or finished on reopen. Synchronising again afterwards converges to the upstream mailbox.",
 ["crash_points","histories"],
 "every prefix of the sequence of file-system operations of any history of syncs, appends, stores, expunges, compactions and UIDVALIDITY changes",
 "no test crashes the process; the log replay and file scan code is only exercised on cleanly closed directories",
 ["libimaildir/imaildir.c","libimaildir/log_file.c","libimaildir/log.c"],
 [("log written before state is reported",  "libimaildir/imaildir.c"),("truncation of a torn last line","libimaildir/log_file.c"),(".invalid marker during wipes","libimaildir/imaildir.c")],
 observe=["dirmgr_open_up/dirmgr_open_dn after reopen"])

prop("M04", "The local mailbox converges to the upstream mailbox",
 "For every upstream history (new messages, flag changes, expunges, UIDVALIDITY changes, dropped connections in the middle of anything) a synchronisation that completes leaves the local mailbox with exactly the upstream's messages, contents and flags, each message body downloaded successfully once, and the saved synchronisation point never runs ahead of what was really applied. Interrupting a synchronisation at any response and reconnecting reaches the same result without deleting messages the upstream still has.",
 ["histories","schedules","fault_sequences"],
 "all upstream histories, response orders allowed by IMAP and disconnection points",
 "test_imaildir scripts a single happy exchange per feature",
 ["libimaildir/up.c","libimaildir/imaildir.c"],
 [("bootstrap, detection and download queues","libimaildir/up.c"),("himodseq_up committed only when consistent","libimaildir/imaildir.c"),("VANISHED and FETCH handling","libimaildir/up.c")],
 observe=["commands sent by up_t","local mailbox via dn_t","log"])

prop("M05", "Local changes are relayed upstream and answered exactly once",
 "Each STORE, COPY and EXPUNGE a client issues is sent to the upstream server (and re-sent after a lost connection until it is answered or is moot), refers to exactly the messages the client named, and is answered to the client exactly once with the upstream's verdict. A read-only (EXAMINE) session never modifies the mailbox. Local flags change only when the upstream reports the change.",
 ["histories","schedules","fault_sequences"],
 "all interleavings of client commands from several sessions with upstream replies and disconnects",
 "tests cover one relay at a time and no disconnect between request and reply",
 ["libimaildir/dn.c","libimaildir/up.c","libimaildir/imaildir.c"],
 [("relays, relays_sent and retry on unregister","libimaildir/imaildir.c"),("imaildir_request_update","libimaildir/imaildir.c")],
 observe=["up_t commands","dn_t tagged responses"])

prop("M06", "Mailbox rename, delete and download never race on a directory",
 "At any time a mailbox name has at most one open mailbox behind it; while a mailbox is being deleted or renamed no session or synchronisation can open it (a local append which was already under way may still finish), and opening it again afterwards sees the finished result. Deleting or renaming kicks every open session exactly once, a pending local append blocks downloads until it is finished and then they resume. A mailbox name which would lead outside the account's mail directory or collide with the mailbox's own control files is refused with NO, is never opened, fetched from the server or relayed in a SELECT, STATUS, DELETE, RENAME, APPEND or COPY, and no sequence of commands changes files of other users or outside the account's directory.",
 ["schedules","histories","inputs"],
 "all interleavings of open, close, hold, release, freeze, rename and delete over a few nested mailbox names, and all mailbox names",
 "tests open single mailboxes and never interleave freezes with sessions",
 ["libimaildir/dirmgr.c","libimaildir/imaildir.c"],
 [("freeze list","libimaildir/dirmgr.c"),("holds and allow_download","libimaildir/imaildir.c"),("dirmgr_name_valid","libimaildir/dirmgr.c")],
 observe=["dirmgr_* return values","directory tree"])

# ---------------------------------------------------------------- streams / http
prop("S01", "Every stream wrapper honours the stream contract",
 "For every byte stream in the system (in-memory, concatenated, length-limited, chunked, borrowed, pass-through and TLS), every read or write accepted is completed exactly once and in order, by data, by end-of-file or by being returned when the stream ends; the bytes delivered are exactly a prefix of the bytes of the source; end-of-file is repeated for every later read; and the end of the stream is announced exactly once, after which nothing else happens. A stream ends as canceled only if it was canceled, an error of the source ends the wrapper with that error, and cancelling or ending at any moment never leaves a stream waiting for ever.",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of reads, cancels, awaits, base data arrivals split at any byte, base EOF and base errors",
 "each wrapper's unit test runs one scripted order with one chunking",
 ["libduv/stream.h","libduv/dstr_rstream.c","libduv/concat.c","libduv/passthru.c","libhttp/limit.c","libhttp/chunked.c","libhttp/borrow.c","libduv/reader.c"],
 [("stream_i contract helpers","libduv/stream.h"),("advance_state loops","libhttp/chunked.c")],
 observe=["read/shutdown/await callbacks"])

prop("S02", "HTTP bodies are framed exactly, whatever the chunking of the wire",
 "An HTTP response is decoded to the same status, headers and body no matter how the network splits it; a body ends exactly where its length or its final chunk says, a premature end of the connection or malformed framing is reported as an error and never as a complete body, and bytes after the body are never consumed as part of it.",
 ["inputs","schedules"],
 "all splits of the byte stream, chunk sizes, extensions, trailers, lengths, premature ends and malformed headers",
 "test_chunked/test_limit/test_duv_http use a few fixed splits",
 ["libhttp/chunked.c","libhttp/limit.c","libhttp/duv_http.c","libweb/http.c"],
 [("chunk header parser fed incrementally","libhttp/chunked.c"),("http_read","libweb/http.c")],
 observe=["rstream reads","duv_http_req_t"])

prop("S03", "A pooled HTTP connection is never shared, leaked or reused dirty",
 "At any time a connection serves at most one request; a connection goes back to the pool only after its response was completely read and the server allowed keep-alive, and is reused only for the same host, port and security; requests wait rather than exceed the per-host limit and each request completes exactly once, successfully or with an error. Closing the pool ends all requests and closes every connection.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of requests to several hosts, cancels, server closes, errors and timeouts",
 "test_duv_http runs a few sequential requests",
 ["libhttp/duv_http.c","libhttp/borrow.c"],
 [("member states and pending request queue","libhttp/duv_http.c")],
 observe=["connections and bytes seen by a scripted server"])

prop("S04", "Scheduled work runs exactly once and in order",
 "Work scheduled on the event loop's scheduler runs exactly once per scheduling, in the order it was scheduled, never after it was cancelled or the scheduler was closed, and never re-entrantly; scheduling something already scheduled does not run it twice, and scheduling from inside a callback runs it later.",
 ["schedules","histories"],
 "all sequences of schedule, cancel, close and run, including from inside callbacks",
 "the scheduler has no direct test",
 ["libduv/scheduler.c"],
 [("schedulable list and async/idle handles","libduv/scheduler.c")],
 observe=["schedulable callbacks"])

# ---------------------------------------------------------------- citm
prop("C01", "Every client is paired with its own upstream connection, none is lost",
 "Each accepted client connection gets exactly one upstream connection of its own and is handed on, after login, exactly once to the single controller of the user that logged in; commands and replies are never crossed between clients or users. Whatever fails or closes first (client, upstream, login, key synchronisation, shutdown) both ends of the pair are closed, no connection is leaked or used after it was given away, and clients that arrive while a user's controller is shutting down are served by the next controller or closed.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of several clients' connects, logins, failures, disconnects, key-sync failures and global shutdown",
 "test_io_pair, test_anon, test_preuser each run single-client scripts; user.c and citm.c have no unit tests",
 ["libcitm/io_pair.c","libcitm/anon.c","libcitm/preuser.c","libcitm/user.c","libcitm/citm.c"],
 [("per-stage linked lists and holds","libcitm/citm.c"),("STEAL hand-off between stages","libcitm/io_pair.c")],
 observe=["callbacks of each stage","fake connections"])

prop("C02", "Login is relayed faithfully and nothing runs before it",
 "Before login completes, a client's commands are answered locally, exactly one tagged reply per command and in order, and only login attempts reach the upstream; the credentials are passed on unmodified, a refused login lets the client try again, and a session becomes authenticated only if the upstream accepted that very login. A client that logs out, disconnects or sends garbage at any point leaves no half-open session behind.",
 ["schedules","inputs","histories"],
 "all sequences of pre-login commands, pipelining, upstream greetings, capabilities, replies and disconnects",
 "test_anon has a small fixed set of conversations",
 ["libcitm/anon.c","libcitm/responses.c"],
 [("anon state machine","libcitm/anon.c")],
 observe=["commands sent up","responses sent down"])

prop("C03", "The device key directory mirrors the account's keys, own key included",
 "After key synchronisation the set of keys used to encrypt appended mail is exactly the account's current device keys as last reported by the server plus this device's own key, which is uploaded again if the server lost it before any session is served; keys added or removed by the server at any time take effect for the next append and are persisted, and restarting loads the same set. The synchronisation request always tells the server exactly the keys already known.",
 ["histories","schedules","crash_points"],
 "all sequences of key creations and deletions, restarts and reconnects",
 "test_keydir checks one sequence of created and deleted keys",
 ["libcitm/keydir.c","libcitm/preuser.c","libcitm/user.c"],
 [("keydir tracks mykey, others and all_keys","libcitm/keydir.c"),("XKEYSYNC handling","libcitm/keydir.c")],
 observe=["keydir_i interface","key files"])

prop("C04", "Users are alerted once, and only once, about each new device key",
 "A fingerprint that was never seen before raises an alert exactly when it first appears in a mailbox that had already been synchronised, or in a key synchronisation after the first one completed; a fingerprint already seen never alerts again, even after being removed and re-added or after a restart. What has been seen survives a crash at any point and is never lost by a failed save.",
 ["histories","crash_points"],
 "all histories of decrypts, key syncs, mailbox syncs, restarts and crash points, and all mailbox names",
 "there is no unit test of the watcher",
 ["libcitm/fpr_watcher.c"],
 [("append-only sets saved by write-then-rename","libcitm/fpr_watcher.c")],
 observe=["fpr_watcher_should_alert_*"])

prop("C05", "Certificate renewal never serves a broken, foreign or expired certificate",
 "The manager hands out only a certificate that belongs to its key, and stops serving it the moment it expires; it starts renewing at two thirds of its lifetime and keeps serving the old one meanwhile. Every failure of the network, of an order, an authorisation, a challenge or a finalisation at the certificate authority, and every failure of the API to prepare or clean up a challenge is retried with the documented backoff, without ever having two requests or two key generations in flight, and a DNS challenge which was published is cleaned up afterwards. A crash or restart at any file operation resumes the order and never leaves a key and a certificate in place that do not belong together. (A refused account creation, a rejected API request and a freshly issued certificate that is already due for renewal are documented to be fatal.)",
 ["histories","crash_points","fault_sequences"],
 "all sequences of replies, failures, timer firings, restarts and closes in every state",
 "test_acme_manager scripts the main paths once each",
 ["libcitm/acme_manager.c"],
 [("keynew/certnew two-step rename","libcitm/acme_manager.c"),("advance_new_cert steps","libcitm/acme_manager.c"),("backoff and deadlines","libcitm/acme_manager.c")],
 observe=["acme_manager_i calls","status/update/done callbacks","files in the acme dir"])

prop("C06", "Status clients always end up with the latest status, in order",
 "Every client of the status server first receives the full status and afterwards, in order, a sequence of statuses the service really had, ending with the current one, no matter how slow it reads or how quickly the status changes; one client's slowness, garbage or disconnect never affects another, commands from every client are executed exactly once, and closing the server disconnects everyone.",
 ["schedules","histories","fault_sequences"],
 "all interleavings of connects, disconnects, slow writes, commands, status updates and close",
 "test_status_server runs fixed scripts",
 ["libcitm/status_server.c"],
 [("clients_new, stale and good lists","libcitm/status_server.c")],
 observe=["bytes written to each client","check callback"])

prop("C07", "No plaintext crosses a STARTTLS upgrade",
 "On a STARTTLS listener a client can neither log in nor run any mailbox command before the upgrade, every pre-upgrade command gets exactly one proper reply, and nothing a client (or an attacker in the middle) sent before the upgrade is ever executed after it or delivered as data; symmetrically the upstream connection refuses any plaintext reply that follows the STARTTLS answer. After the upgrade all commands and responses are relayed unmodified and in order.",
 ["schedules","inputs"],
 "all packetisations and orders of pre-upgrade commands, injected plaintext and upgrade points",
 "test_imap_server/test_imap_client check one injection with one packetisation",
 ["libcitm/imap_server.c","libcitm/imap_client.c"],
 [("imap_cmd_read_starttls stops at STARTTLS","libcitm/imap_server.c"),("leftover response check","libcitm/imap_client.c")],
 observe=["imap_server_read/imap_client_read callbacks","bytes on the wire"])

prop("C08", "Every IMAP command gets exactly one tagged reply, in a legal state",
 "After login each command a client sends, pipelined or not, is answered by exactly one tagged reply with that command's tag, in order of the commands, and commands illegal in the current state are refused without side effects; the session's selected mailbox changes only through SELECT, EXAMINE, CLOSE, UNSELECT or LOGOUT. Mail appended by the client is stored upstream only encrypted to all of the user's devices and appears locally exactly once with the UID the client was told.",
 ["schedules","inputs","histories"],
 "all sequences and pipelinings of commands with all upstream verdicts",
 "the e2e tests run one scripted client at a time",
 ["libcitm/sc.c"],
 [("sc command pipeline","libcitm/sc.c")],
 observe=["responses to the client","commands to the upstream"])

# ---------------------------------------------------------------- base library
prop("D01", "Containers behave as maps, ordered sets, heaps and lists",
 "The hash map, the ordered tree, the heap and the intrusive lists behave exactly like their abstract counterparts for every sequence of operations: nothing is lost, duplicated or reordered, iteration visits every element exactly once in the promised order and tolerates removal of elements as documented, and replacing, popping or removing an element hands back exactly that element and leaves the others untouched.",
 ["histories","inputs"],
 "all operation sequences including rehashing, rebalancing and removal during iteration",
 "tests check a few fixed insertions",
 ["libdstr/hashmap.c","libdstr/jsw_atree.c","libdstr/heap.c","libdstr/link.c"],
 [("bucket lists and rehash","libdstr/hashmap.c"),("Andersson-tree split/skew","libdstr/jsw_atree.c")],
 observe=["public container API"])

prop("D02", "The IMAP command parser is independent of packet boundaries",
 "A client's byte stream is parsed into the same commands, with the same arguments and literals, and produces the same continuation requests and errors, no matter how it is split into reads; a synchronising literal is asked for exactly once and before its data is consumed, a malformed command is reported once and does not affect the commands after it, and what the program writes for a command or response reads back as the same command or response whatever the size of the output buffers.",
 ["inputs","schedules"],
 "all splits of all command streams, literals of both kinds, errors at any position, all output buffer sizes",
 "test_imap_parse/test_imap_write use fixed inputs, mostly whole or byte-by-byte",
 ["libimap/imap_read.c","libimap/imap_write.c"],
 [("incremental scanner and parser","libimap/imap_read.c"),("skip/want resumable writer","libimap/imap_write.c")],
 observe=["imap_cmd_read","imap_resp_read","imap_cmd_write","imap_resp_write"])

# ---------------------------------------------------------------- account database
prop("A01", "Account database rules hold for every history of operations",
 "No address is ever given to two accounts or reissued after deletion, an account never exceeds its alias, device and token limits, deleting an account removes everything reachable from it, and every failed operation leaves the database unchanged. API tokens and installations accept only increasing nonces and correct secrets; sessions end by explicit logout and by both timeouts, and a CSRF token is only valid for its session and lifetime.",
 ["histories","schedules"],
 "all histories of account operations over several users",
 "server tests use one user and a fixed script against a real database",
 ["server/libsmsql.c","server/migrations"],
 [("stored procedures and unique keys","server/migrations"),("transactions in libsmsql","server/libsmsql.c")],
 observe=["libsmsql functions"])

prop("A02", "Schema migrations are applied completely, in order and reversibly",
 "The migration tool brings the database from any recorded level to any requested level by running exactly the missing steps in order, records each step when it is complete, never repeats a completed step, stops at the first failing step leaving the record accurate, and undoes steps in reverse order.",
 ["histories","fault_sequences"],
 "all sets of migration files, starting levels, targets and failing steps",
 "test_migmysql runs a few fixed directories",
 ["server/migmysql.c"],
 [("migration list merge","server/migmysql.c")],
 observe=["migmysql_main"])

prop("A03", "Key-sync sessions always tell a device the exact key set",
 "During an XKEYSYNC session a device is told about every key added to and removed from the account relative to what it reported, each exactly once and in a consistent order, including keys changed while it idles.",
 ["histories","schedules"],
 "all histories of key changes by other devices during a session",
 "only end-to-end tests exist",
 ["server/xkey/xkeysync.c"],
 [("diff of known and current keys","server/xkey/xkeysync.c")],
 observe=["XKEYSYNC responses"])

# ---------------------------------------------------------------- pure functions (not for this technique)
prop("X01", "Encrypted mail decrypts to the original for every listed device only",
 "For every message, every set of recipient keys and every way the data is streamed, each recipient recovers exactly the original message, nobody else does, and any modification is detected before the message is accepted.",
 ["inputs"], "all messages, key sets, chunkings and corruptions",
 "fixed messages and corruptions only", ["libcrypto/crypto.c"],
 [("envelope format, GCM tag","libcrypto/crypto.c")])
prop("X02", "Text formats (JSON, URLs, base64, JWS, qwwq) are read and written faithfully",
 "Every value written by the program in one of its text formats is read back as the same value, every malformed text is refused, and escaping never lets data change structure.",
 ["inputs"], "all values and all texts", "fixed samples only",
 ["libdstr/json.c","libweb/url.c","libacme/jws.c","tools/qwwq"],
 [("parsers and writers","libdstr/json.c")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
