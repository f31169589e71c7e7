----------------------------- MODULE DnsServer -----------------------------
(* The name server process: replicas of the challenge table fed by peers, the per-source
   rate limit, and the pool of packet buffers shared by receiving and sending. *)
EXTENDS DnsWire
CONSTANTS NBUF, RATE
VARIABLES
    np,     \* number of configured peers
    rid,    \* [1..np -> Nat]: the identity our replica for that peer drew at start
    rep,    \* [1..np -> replica]
    now,    \* ms
    out,    \* buffers owned by sends in flight
    closed,
    limit,  \* is the rate limit on
    acc,    \* [source prefix -> [sec, n, win, run]]: what was let through
    wide    \* is the table so large that the sources at hand do not share entries
dvars == <<np, rid, rep, now, out, closed, limit, acc, wide>>
Sec == now \div 1000
NoRep == [acked |-> FALSE, starts |-> <<>>, sync |-> 0, exp |-> 0, data |-> {}]
Recving == out < NBUF
Init0(n, ids, t, lim, w) ==
    /\ np = n /\ rid = ids /\ rep = [p \in 1..n |-> NoRep] /\ now = t
    /\ out = n                       \* the first resync requests are on their way
    /\ closed = FALSE /\ limit = lim /\ acc = <<>> /\ wide = w
Advance(t) == t >= now /\ now' = t /\ UNCHANGED <<np, rid, rep, out, closed, limit, acc, wide>>
---------------------------------------------------------------------------
(* replicas *)
Idx(st, s) == IF \E i \in 1..Len(st) : st[i] = s THEN CHOOSE i \in 1..Len(st) : st[i] = s ELSE 0
Note(st, s) == IF Idx(st, s) # 0 THEN st ELSE Append(st, s)
Insert(r, s, u, k, v) == [r EXCEPT !.data = @ \cup {[s |-> s, u |-> u, k |-> k, v |-> v, del |-> FALSE]}]
Delete(r, s, u, k, d) ==
    [r EXCEPT !.data = {x \in @ : ~(x.s = s /\ x.k = k /\ x.u = d)} \cup {[s |-> s, u |-> u, k |-> k, v |-> <<>>, del |-> TRUE]}]
Fresh(r, u) == IF u.sync = r.sync THEN [r EXCEPT !.exp = Max(@, u.exp)] ELSE r
Flush(r, u) == IF Idx(r.starts, u.sync) = 0 \/ Idx(r.starts, u.sync) < Idx(r.starts, r.sync) THEN r
               ELSE [r EXCEPT !.sync = u.sync, !.exp = Max(@, u.exp),
                     !.data = {x \in @ : Idx(r.starts, x.s) >= Idx(r.starts, u.sync)}]
Apply(r, u) ==
    CASE u.ty = "start" -> [Fresh(r, u) EXCEPT !.starts = Note(@, u.sync)]
      [] u.ty = "flush" -> Flush(Fresh(r, u), u)
      [] u.ty = "insert" -> Insert(Fresh(r, u), u.sync, u.upd, u.key, u.val)
      [] u.ty = "delete" -> Delete(Fresh(r, u), u.sync, u.upd, u.key, u.del)
      [] OTHER -> Fresh(r, u)
\* what one replica says about a user
Says(r, k) ==
    LET cand == {x \in r.data : x.s = r.sync /\ x.k = k}
        top == CHOOSE x \in cand : \A y \in cand : y.u <= x.u
    IN IF r.sync = 0 THEN [k |-> "unsure", v |-> <<>>]
       ELSE IF cand # {} /\ ~top.del THEN [k |-> "yes", v |-> top.v]
       ELSE IF now < r.exp THEN [k |-> "no", v |-> <<>>]
       ELSE [k |-> "unsure", v |-> <<>>]
\* what the server may say: a yes beats a no beats not knowing
Verdicts(k) ==
    LET all == {Says(rep[p], k) : p \in 1..np}
        yes == {x \in all : x.k = "yes"}
        no == {x \in all : x.k = "no"}
    IN IF yes # {} THEN yes ELSE IF no # {} THEN no ELSE {[k |-> "unsure", v |-> <<>>]}
---------------------------------------------------------------------------
(* rate limit: RATE answers per second and source prefix; the table is finite, so
   strangers may share an entry, and its clock has 32 one second ticks *)
Acc(px) == IF \E i \in 1..Len(acc) : acc[i].px = px THEN acc[CHOOSE i \in 1..Len(acc) : acc[i].px = px]
           ELSE [px |-> px, sec |-> -1, n |-> 0, win |-> -1, run |-> 0, old |-> FALSE]
Win == Sec % 32
RECURSIVE Sum(_, _)
Sum(i, w) == IF i = 0 THEN 0 ELSE (IF acc[i].win = w THEN acc[i].run ELSE 0) + Sum(i - 1, w)
MustDrop(px) == limit /\ Acc(px).sec = Sec /\ Acc(px).n >= RATE
\* an entry never used looks as if it had been used in tick 0
Lim(px) == IF Win = 0 /\ ~Acc(px).old THEN RATE - 1 ELSE RATE
Own(px) == Acc(px).win = Win /\ Acc(px).run >= Lim(px)
MayDrop(px) == limit /\ (IF wide THEN Own(px) ELSE Sum(Len(acc), Win) >= Lim(px))
Put(px) == LET a == Acc(px)
               b == [px |-> px, old |-> a.old \/ Win # 0, sec |-> Sec, n |-> IF a.sec = Sec THEN a.n + 1 ELSE 1,
                     win |-> Win, run |-> IF a.win = Win THEN a.run + 1 ELSE 1]
           IN IF a.sec < 0 THEN Append(acc, b) ELSE [i \in 1..Len(acc) |-> IF acc[i].px = px THEN b ELSE acc[i]]
Count(px) == IF limit THEN acc' = Put(px) ELSE UNCHANGED acc
---------------------------------------------------------------------------
(* a datagram on the public port; R is the reply, empty if none *)
UserOf(m) == LowS(m.qn[Len(m.qn) - 3])
Answers(m) == IF Len(m.qn) = 5 /\ IsChallenge(m) THEN Verdicts(UserOf(m)) ELSE {[k |-> "no", v |-> <<>>]}
Served(B, R) ==
    LET m == Msg(B)
    IN IF Worthy(m) THEN R # <<>> /\ (\E kv \in Answers(m) : Right(m, R, kv)) ELSE R = <<>>
Query(px, B, R) ==
    /\ ~closed /\ Recving
    /\ \/ ~MustDrop(px) /\ Served(B, R) /\ Count(px)
       \/ MayDrop(px) /\ R = <<>> /\ UNCHANGED acc
    /\ out' = out + (IF R = <<>> THEN 0 ELSE 1)
    /\ UNCHANGED <<np, rid, rep, now, closed, limit, wide>>
(* a datagram on the peers' port; p = 0: from a stranger; acks: what was sent back *)
Update(p, u, acks) ==
    /\ ~closed /\ Recving
    /\ IF p = 0 \/ u.bad THEN acks = <<>> /\ UNCHANGED <<rep, out>>
       ELSE LET r == rep[p] IN
            /\ out' = out + 1
            /\ IF r.acked THEN rep' = [rep EXCEPT ![p] = Apply(r, u)] /\ acks = <<[p |-> p, sync |-> u.sync, upd |-> u.upd]>>
               ELSE IF u.ty = "start" /\ u.resync = rid[p]
               THEN /\ rep' = [rep EXCEPT ![p] = [r EXCEPT !.acked = TRUE, !.starts = <<u.sync>>]]
                    /\ acks = <<[p |-> p, sync |-> u.sync, upd |-> u.upd]>>
               ELSE UNCHANGED rep /\ acks = <<[p |-> p, sync |-> rid[p], upd |-> 0]>>
    /\ UNCHANGED <<np, rid, now, closed, limit, acc, wide>>
(* an incomplete datagram or a spurious wakeup *)
Nothing == ~closed /\ Recving /\ UNCHANGED dvars
(* a datagram has to wait: only when no buffer is left *)
Wait == (closed \/ ~Recving) /\ UNCHANGED dvars
(* a send ends; only an unexpected error ends the server *)
Done(st) ==
    /\ out > 0 /\ out' = out - 1
    /\ closed' = (closed \/ st = "err")
    /\ UNCHANGED <<np, rid, rep, now, limit, acc, wide>>
(* nothing is lost: free buffers and the receiving state as seen from outside *)
Pool(free, recving) == free + out = NBUF /\ (closed \/ recving = Recving) /\ UNCHANGED dvars
---------------------------------------------------------------------------
RateLimited == \A i \in 1..Len(acc) : acc[i].n <= RATE
PoolBounded == out <= NBUF
=============================================================================
