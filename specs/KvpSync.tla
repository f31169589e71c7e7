------------------------------ MODULE KvpSync ------------------------------
(* The kvpsync protocol: one sender process (with restarts) publishing a key-value map to one
   receiver process (with restarts) over a network that may lose, duplicate, delay and reorder.

   The receiver is specified exactly (it is a deterministic reaction to packets).
   The sender is specified as a contract: which packet it may send when, with which content and
   which OK period, when it must call back, when it may claim that the peer is OK.
   Time is in milliseconds.  Sync ids, receiver ids and update ids are small naturals; 0 = none. *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Keys,      \* keys in use
          RESP,      \* length of an OK period (15000 ms)
          FAULT      \* a packet is in flight for at most this long (1000 ms)

VARIABLES now,       \* the clock (both ends are assumed synchronised, as PROTOCOL requires)
          gens,      \* history: gens[g] = the g'th value ever added, with its fate
          cache,     \* the sender's map: key -> generation, 0 if absent
          snd,       \* sender protocol state
          rcv,       \* receiver state
          pend       \* generations whose callback is due inside the current handle_ack

vars == <<now, gens, cache, snd, rcv, pend>>

Max(a, b) == IF a > b THEN a ELSE b
NoPkt == [ty |-> "none", k |-> 0, g |-> 0, d |-> 0, rs |-> 0]
Content(p) == [ty |-> p.ty, k |-> p.k, g |-> p.g, d |-> p.d, rs |-> p.rs]

----------------------------------------------------------------------------
(* receiver *)
NewRcv(rid) == [rid |-> rid, acked |-> FALSE, starts |-> <<>>, sid |-> 0, okexp |-> 0, data |-> {}]

Seen(r, s) == \E i \in 1..Len(r.starts) : r.starts[i] = s
Idx(r, s) == IF Seen(r, s) THEN CHOOSE i \in 1..Len(r.starts) : r.starts[i] = s ELSE 0

NoteStart(r, s) == IF Seen(r, s) THEN r ELSE [r EXCEPT !.starts = Append(@, s)]

\* a flush is obeyed only for a synchronisation whose START was seen, and never takes us back
FlushOk(r, s) == Seen(r, s) /\ Idx(r, s) >= Idx(r, r.sid)
DoFlush(r, p) ==
    IF ~FlushOk(r, p.sync) THEN r
    ELSE [r EXCEPT !.sid = p.sync,
                   !.okexp = Max(@, p.exp),
                   !.data = {x \in @ : Idx(r, x.sync) >= Idx(r, p.sync)}]

\* inserts and deletes commute: a deletion names the insert it cancels
Datum(p) == [sync |-> p.sync, upd |-> p.upd, ty |-> p.ty, k |-> p.k, g |-> p.g, d |-> p.d]
DoDatum(r, p) == [r EXCEPT !.data = @ \cup {Datum(p)}]

\* result: the new receiver state; every packet is acked, except that until the first START answering
\* our own resync request arrives, everything is answered by that request
Boots(r, p) == p.ty = "start" /\ p.rs = r.rid
RecvState(r, p) ==
    IF ~r.acked THEN IF Boots(r, p) THEN NoteStart([r EXCEPT !.acked = TRUE], p.sync) ELSE r
    ELSE LET r1 == IF p.sync = r.sid THEN [r EXCEPT !.okexp = Max(@, p.exp)] ELSE r
         IN CASE p.ty = "start" -> NoteStart(r1, p.sync)
              [] p.ty = "flush" -> DoFlush(r1, p)
              [] p.ty \in {"insert", "delete"} -> DoDatum(r1, p)
              [] OTHER -> r1
RecvAck(r, p) == IF ~r.acked /\ ~Boots(r, p) THEN <<r.rid, 0>> ELSE <<p.sync, p.upd>>

\* what a lookup answers: a generation, 0 = confident no, -1 = unsure
Negative(r) == IF now < r.okexp THEN 0 ELSE -1
Value(r, k) ==
    IF r.sid = 0 THEN -1
    ELSE LET mine == {x \in r.data : x.sync = r.sid /\ x.k = k}
             dels == {x.d : x \in {y \in mine : y.ty = "delete"}}
             live == {x \in mine : x.ty = "delete" \/ x.upd \notin dels}
         IN IF live = {} THEN Negative(r)
            ELSE LET top == CHOOSE x \in live : \A y \in live : y.upd <= x.upd
                 IN IF top.ty = "delete" THEN Negative(r) ELSE top.g

----------------------------------------------------------------------------
(* sender *)
NewSnd(life, used, rs) ==
    [life |-> life, sync |-> 0, used |-> used, rs |-> rs, started |-> FALSE, synced |-> FALSE, flushed |-> FALSE,
     sent |-> <<>>,          \* upd :> [content, last send time]
     acked |-> {},           \* acknowledged upds of this sync
     okmax |-> 0,            \* latest OK expiry granted in this sync
     ok |-> FALSE, okat |-> 0, resynced |-> FALSE,
     acks |-> 0,             \* acknowledgements ever received by this process
     lastack |-> 0]          \* number of gens existing when the last ack of this sync was handled

UpdOf(g) == {u \in DOMAIN snd.sent : snd.sent[u].c.ty = "insert" /\ snd.sent[u].c.g = g}
AckedNow(g) == \E u \in UpdOf(g) : u \in snd.acked
LiveGens == {cache[k] : k \in Keys} \ {0}
\* everything that existed when the last ack came has been acknowledged in this sync
Complete == \A g \in LiveGens : g <= snd.lastack => AckedNow(g)

InFlight(s) == {u \in DOMAIN s.sent : u \notin s.acked /\ now < s.sent[u].at + FAULT}

ExpOk(p) ==
    IF p.exp = 0 THEN TRUE
    ELSE /\ snd.ok
         /\ p.exp <= now + RESP
         /\ \A g \in LiveGens : ~gens[g].cb => p.exp <= gens[g].t + RESP

NewOk(p) ==
    CASE p.ty = "start"  -> ~snd.started /\ p.upd = 1 /\ p.rs = snd.rs /\ snd.sent = <<>>
      [] p.ty = "insert" -> /\ snd.started
                            /\ p.g \in 1..Len(gens) /\ gens[p.g].k = p.k /\ gens[p.g].life = snd.life
                            /\ UpdOf(p.g) = {}
      [] p.ty = "delete" -> /\ snd.started
                            /\ p.d \in DOMAIN snd.sent /\ snd.sent[p.d].c.ty = "insert" /\ snd.sent[p.d].c.k = p.k
                            /\ p.d < p.upd
                            /\ gens[snd.sent[p.d].c.g].st # "live"
                            /\ \A u \in DOMAIN snd.sent : snd.sent[u].c.ty = "delete" => snd.sent[u].c.d # p.d
      [] p.ty = "flush"  -> snd.started /\ ~snd.flushed /\ (snd.synced \/ Complete)
      [] p.ty = "empty"  -> snd.started /\ snd.flushed
      [] OTHER -> FALSE

SyncOk(p) == IF snd.sync = 0 THEN p.sync # 0 /\ p.sync \notin snd.used ELSE p.sync = snd.sync

\* the sender puts p on the wire
Send(p) ==
    /\ SyncOk(p)
    /\ IF p.upd \in DOMAIN snd.sent
         THEN snd.sent[p.upd].c = Content(p) /\ p.upd \notin snd.acked
         ELSE p.upd = Cardinality(DOMAIN snd.sent) + 1 /\ NewOk(p)
    /\ ExpOk(p)
    /\ snd' = [snd EXCEPT !.sync = p.sync, !.used = @ \cup {p.sync},
                          !.sent = (p.upd :> [c |-> Content(p), at |-> now]) @@ @,
                          !.flushed = @ \/ p.ty = "flush",
                          !.okmax = Max(@, p.exp)]
    \* slow start: the window starts at one packet and grows by at most one per acknowledgement
    /\ Cardinality(InFlight(snd')) <= 1 + snd.acks
    /\ UNCHANGED <<now, gens, cache, rcv, pend>>

\* the sender decides whether the peer is OK
BelieveOk ==
    /\ ~snd.ok /\ snd.started /\ Complete
    /\ snd' = [snd EXCEPT !.ok = TRUE, !.synced = TRUE, !.okat = now, !.resynced = FALSE]
    /\ UNCHANGED <<now, gens, cache, rcv, pend>>
BelieveNotOk ==
    /\ snd.ok
    /\ snd.resynced \/ now >= snd.okmax
    /\ snd' = [snd EXCEPT !.ok = FALSE, !.resynced = FALSE]
    /\ UNCHANGED <<now, gens, cache, rcv, pend>>
\* a run of the sender ends: its belief must be up to date
BeliefTimely == snd.ok => (~snd.resynced /\ (now < snd.okmax \/ now < snd.okat + RESP))

Add(k) ==
    LET g == Len(gens) + 1 IN
    /\ gens' = Append([i \in 1..Len(gens) |-> IF i = cache[k] THEN [gens[i] EXCEPT !.st = "replaced"] ELSE gens[i]],
                      [k |-> k, t |-> now, st |-> "live", cb |-> FALSE, life |-> snd.life])
    /\ cache' = [cache EXCEPT ![k] = g]
    /\ UNCHANGED <<now, snd, rcv, pend>>
Del(k) ==
    /\ gens' = [i \in 1..Len(gens) |-> IF i = cache[k] THEN [gens[i] EXCEPT !.st = "deleted"] ELSE gens[i]]
    /\ cache' = [cache EXCEPT ![k] = 0]
    /\ UNCHANGED <<now, snd, rcv, pend>>

\* an acknowledgement <<as, au>> reaches the sender
IsResync(as, au) == au = 0 /\ as # snd.rs
Stale(as, au) == au = 0 \/ as # snd.sync \/ au \notin DOMAIN snd.sent \/ au \in snd.acked
HandleAck(as, au) ==
    /\ pend = {}
    /\ IF IsResync(as, au)
         THEN /\ snd' = [NewSnd(snd.life, snd.used, as) EXCEPT !.ok = snd.ok, !.resynced = snd.ok, !.acks = snd.acks]
              /\ UNCHANGED pend
         ELSE IF Stale(as, au) THEN UNCHANGED <<snd, pend>>
         ELSE LET c == snd.sent[au].c IN
              /\ snd' = [snd EXCEPT !.acked = @ \cup {au}, !.acks = @ + 1,
                                    !.started = @ \/ c.ty = "start", !.lastack = Len(gens),
                                    !.synced = @ \/ ((snd.started \/ c.ty = "start") /\ \A g \in LiveGens : AckedNow(g) \/ (c.ty = "insert" /\ c.g = g))]
              \* the callback of an insert: once, unless it was deleted; optional if it was replaced
              /\ pend' = IF c.ty = "insert" /\ ~gens[c.g].cb /\ gens[c.g].st # "deleted" THEN {c.g} ELSE {}
    /\ UNCHANGED <<now, gens, cache, rcv>>
Callback(g) ==
    /\ g \in pend
    /\ pend' = pend \ {g}
    /\ gens' = [gens EXCEPT ![g].cb = TRUE]
    /\ UNCHANGED <<now, cache, snd, rcv>>
AckDone ==
    /\ \A g \in pend : gens[g].st # "live"
    /\ pend' = {}
    /\ UNCHANGED <<now, gens, cache, snd, rcv>>

SenderRestart ==
    /\ snd' = NewSnd(snd.life + 1, snd.used, 0)
    /\ gens' = [i \in 1..Len(gens) |-> IF gens[i].st = "live" THEN [gens[i] EXCEPT !.st = "lost"] ELSE gens[i]]
    /\ cache' = [k \in Keys |-> 0]
    /\ pend' = {}
    /\ UNCHANGED <<now, rcv>>
RecvRestart(rid) == rcv' = NewRcv(rid) /\ UNCHANGED <<now, gens, cache, snd, pend>>
Deliver(p) == rcv' = RecvState(rcv, p) /\ UNCHANGED <<now, gens, cache, snd, pend>>
Advance(t) == now' = t /\ t >= now /\ UNCHANGED <<gens, cache, snd, rcv, pend>>

----------------------------------------------------------------------------
(* properties *)
\* a value answered for a key was really held for that key
ValueWasHeld == \A k \in Keys : LET v == Value(rcv, k) IN v > 0 => gens[v].k = k
\* the guarantee the challenge service is built on: 15 seconds after a key was added, whether or not this
\* replica was reachable, it does not confidently deny the key
NoLateDenial ==
    \A k \in Keys : LET g == cache[k] IN
        (g # 0 /\ now >= gens[g].t + RESP) => Value(rcv, k) # 0
\* once the insert is acknowledged and this replica has been flushed into that synchronisation, it serves it
\* (delivered data is remembered even if the acknowledgement is lost, so this is stronger than needed)
AckedIsServed ==
    \A k \in Keys : LET g == cache[k] IN
        (g # 0 /\ rcv.sid = snd.sync /\ snd.sync # 0 /\ \E x \in rcv.data : x.sync = rcv.sid /\ x.g = g /\ x.ty = "insert")
            => Value(rcv, k) = g
AckedWasDelivered ==
    \A k \in Keys : LET g == cache[k] IN
        (g # 0 /\ AckedNow(g) /\ rcv.sid = snd.sync)
            => \E x \in rcv.data : x.sync = rcv.sid /\ x.g = g /\ x.ty = "insert"
\* the strong form: holds except while a replica still trusts an earlier synchronisation whose successor's
\* flush it has not seen (recorded as a known finding); AckedServedNow is its claimed part
AckedNeverDenied == \A k \in Keys : LET g == cache[k] IN (g # 0 /\ gens[g].cb) => Value(rcv, k) \in {g, -1}
AckedServedNow == (rcv.sid \in {0, snd.sync}) =>
    \A k \in Keys : LET g == cache[k] IN (g # 0 /\ AckedNow(g)) => Value(rcv, k) \in {g, -1}
\* a deletion that reached the replica is final
DeletedStaysDeleted ==
    \A x \in rcv.data : x.ty = "delete" /\ x.sync = rcv.sid
        => \A y \in rcv.data : y.ty = "insert" /\ y.sync = x.sync /\ y.upd = x.d => Value(rcv, y.k) # y.g
Converged == /\ \A k \in Keys : Value(rcv, k) = cache[k]
             /\ now < rcv.okexp
             /\ snd.ok /\ snd.flushed
             /\ \A g \in 1..Len(gens) : gens[g].st = "live" => gens[g].cb
=============================================================================
