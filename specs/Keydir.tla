-------------------------------- MODULE Keydir --------------------------------
(* One user's key directory: this device's key, the account's other keys, and the watcher which
   tells the user about every new device key, once.
   An operation is a sequence of steps, each durable when it is complete: the message to the user
   always precedes the note that the key has been seen, which precedes everything else.  A crash
   or an i/o failure leaves a prefix of the steps done.                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
VARIABLES my,       \* this device's key
          keys,     \* the other keys in use
          files,    \* the other keys on disk: what a restart loads
          seen,     \* fingerprints ever seen
          synced,   \* mailboxes which have been synchronised once
          xdone,    \* a key synchronisation has completed once
          sent,     \* history: for each fingerprint, how often the user was told
          ought     \* history: 1: the user had to be told; 0: must not be told
kvars == <<my, keys, files, seen, synced, xdone, sent, ought>>

KInit(m, fs) ==
    /\ my = m /\ keys = {} /\ files = {} /\ seen = {} /\ synced = {} /\ xdone = FALSE
    /\ sent = [f \in fs |-> 0] /\ ought = [f \in fs |-> -1]

(* the steps of meeting fingerprints r (a sequence), alerting when due *)
RECURSIVE Meet(_, _, _)
Meet(r, sn, due) ==
    IF r = <<>> THEN <<>>
    ELSE LET f == Head(r) IN
         (IF f \in sn THEN <<>> ELSE (IF due THEN << <<"tell", f>>, <<"see", f>> >> ELSE << <<"see", f>> >>))
         \o Meet(Tail(r), sn \cup {f}, due)

Of(steps, k) == [i \in 1..Len(SelectSeq(steps, LAMBDA s : s[1] = k)) |-> SelectSeq(steps, LAMBDA s : s[1] = k)[i][2]]
Items(steps, k) == {s[2] : s \in {x \in {steps[i] : i \in 1..Len(steps)} : x[1] = k}}

(* the state after the given steps; `told` is what arrived in the user's INBOX.
   due: what the user has to be told if this is the first time *)
Do(steps, due) ==
    /\ seen' = seen \cup Items(steps, "see")
    /\ synced' = synced \cup Items(steps, "sync")
    /\ xdone' = (xdone \/ Items(steps, "x") # {})
    /\ files' = (files \cup Items(steps, "file")) \ Items(steps, "unfile")
    /\ sent' = [f \in DOMAIN sent |-> sent[f] + Len(SelectSeq(steps, LAMBDA s : (s[1] = "tell") /\ (s[2] = f)))]
    /\ ought' = [f \in DOMAIN ought |-> IF ought[f] = -1 /\ f \in seen' \ seen THEN (IF due THEN 1 ELSE 0) ELSE ought[f]]

Prefixes(s) == {SubSeq(s, 1, k) : k \in 0..Len(s)}

(* the steps of each operation *)
DecSteps(r, mb) == Meet(r, seen, mb \in synced)
AddSteps(f) == Meet(<<f>>, seen, xdone) \o << <<"file", f>> >>
DelSteps(f) == << <<"unfile", f>> >>
SyncSteps(mb) == IF mb \in synced THEN <<>> ELSE << <<"sync", mb>> >>
XSteps == IF xdone THEN <<>> ELSE << <<"x", 0>> >>

(* completed operations *)
Decrypt(r, mb) == Do(DecSteps(r, mb), mb \in synced) /\ UNCHANGED <<my, keys>>
Add(f) == f \notin keys /\ Do(AddSteps(f), xdone) /\ keys' = keys \cup {f} /\ UNCHANGED my
(* the key is not used any more even if its file could not be removed *)
Del(f, lost) == Do(IF lost THEN <<>> ELSE DelSteps(f), FALSE) /\ keys' = keys \ {f} /\ UNCHANGED my
Synced(mb) == Do(SyncSteps(mb), FALSE) /\ UNCHANGED <<my, keys>>
XDone == Do(XSteps, FALSE) /\ UNCHANGED <<my, keys>>
Restart == keys' = files /\ UNCHANGED <<my, files, seen, synced, xdone, sent, ought>>
(* the private key was damaged: the device gets a new one, nothing else changes *)
NewKey(m) == m \notin {my} /\ my' = m /\ keys' = files /\ UNCHANGED <<files, seen, synced, xdone, sent, ought>>

(* an operation which was interrupted: a prefix of its steps; after a crash memory is what the disk says *)
Failed(steps, due) == \E p \in Prefixes(steps) : Do(p, due) /\ UNCHANGED <<my, keys>>
Crashed(steps, due) == \E p \in Prefixes(steps) : Do(p, due) /\ keys' = files' /\ UNCHANGED my

(* ------------------------------------------------------------------ what users rely on *)
(* whoever had to be told was told *)
Told == \A f \in DOMAIN sent : (ought[f] = 1) => (sent[f] > 0)
KnownSeen == keys \subseteq seen
===============================================================================
