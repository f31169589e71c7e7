T = "TLA+ specification checked with TLC; traces recorded from the real code validated against it by TLC"
CLAIMS = {
"K01": (T, "exhaustive for the listed small constants of KvpSyncMC (network as a set: loss, duplication, reordering, delay, restarts); the real sender and receiver are judged on seeded random and directed histories, every event of which must be a step of KvpSync; clocks assumed synchronised"),
"K02": (T, "bounded-time convergence on every recorded history after the network heals, plus every safety clause of KvpSync; not a proof of liveness for unbounded histories"),
"M01": (T, "seeded random schedules of the whole citm (real binary code, fake server and clients, every order of deliveries, several clients and mailboxes, crashes); every event of every recorded history must be a step of Imaildir.tla; ImaildirMC is explored exhaustively for small constants and seeded mutants of it must be rejected"),
"M02": (T, "as M01, with histories dominated by restarts, expunges, UIDVALIDITY changes and crashes at random system calls"),
"M03": (T, "as M01, with the process killed at random file operations and restarted over the same directory"),
"M04": (T, "as M01, with upstream histories dominated by other devices' changes, dropped connections and UIDVALIDITY changes; at every quiet point the mailbox must equal the upstream one"),
"M05": (T, "as M01, with histories dominated by STORE, COPY and EXPUNGE of several sessions, refusals and dropped connections"),
"C03": (T, "seeded random schedules of the whole citm in which other devices' keys and the device's own key come and go on the account, with up to three sessions appending mail, dropped connections, refused uploads and restarts; every announcement, upload, alert and the recipients of every mail encrypted (found by decrypting what reaches the server) must be steps of KeySync.tla"),
"C04": (T, "KeydirMC exhaustive for three keys, two mailboxes, two faults; the real key directory and mailbox code is driven through random histories with a crash, a power failure or an I/O error at chosen file system calls, and every alert and every restart must be a step of Keydir.tla"),
"M06": (T, "DirmgrMC exhaustive for two accessors, one hold, two freezes and three nested names; the real dirmgr and mailboxes are driven through random interleavings of opens, closes, holds, freezes, deletes, renames and restarts, and the whole citm by clients using hostile mailbox names with the file system outside of the account compared before and after; every event must be a step of Dirmgr.tla or ImapSession.tla"),
"C08": (T, "seeded random schedules of the whole citm with up to three clients which pipeline arbitrary commands (valid, malformed, out of state, with literals, split at arbitrary bytes) in arbitrary states; every command, pass-through, response and close of every session must be a step of ImapSession.tla"),
"K03": (T, "exhaustive for one name, two replicas, two subscribers in KvpSendMC; the real service with real senders and real replicas behind a scripted network (delays, silent replicas, restarts) is judged on seeded random histories of up to six names and three replicas: every output of every call must be a step of KvpSend.tla"),
"K04": (T, "DnsWire.tla parses and judges messages byte by byte: every reply of the real server loop (main.c with mocked sockets, every buffer followed by garbage, and once more in an exactly sized buffer under AddressSanitizer) to seeded random well-formed, compressed, mutated, truncated and garbage datagrams must be the one it prescribes"),
"K05": (T, "DnsServerMC exhaustive for two peers, one key; the real server loop with up to eight peers, mocked clock and sockets is judged on seeded random histories of updates, restarts of sessions, expiries, floods from 32 networks over 1, 2, 7 or 65521 buckets, exhausted buffers and failing sends"),
"C05": (T, "AcmeMC exhaustive for two faults (failed, unhelpful and slow replies, crashes between file operations) and up to four orders; the real acme_manager.c with scripted ACME, API, key generation and clock is driven through 952 directed and seeded random histories with crashes (also with torn writes) at every file operation, restarts over mutated directories, closes and cancels; every output of every step must be the one Acme.tla prescribes"),
"D01": (T, "random operation sequences up to several hundred elements plus every insertion order of 6 (thorough: 7) keys with random removals, for map, tree, heap and lists; every result must be the abstract type's"),
}
HOOKS = None
LATER = "within reach of the technique, but no check has been built for it: not claimed"
NA = {p["id"]: LATER for p in props}
NA["X01"] = "cryptographic strength and encrypt/decrypt round trips over arbitrary data are data transformations with no state machine to specify; a TLA+ model would only restate the function"
NA["X02"] = "parsers and printers of text formats are pure data transformations over unbounded strings; a TLA+ specification would be a second implementation that TLC cannot explore meaningfully"
