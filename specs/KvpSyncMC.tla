----------------------------- MODULE KvpSyncMC -----------------------------
(* exhaustive exploration of KvpSync closed with a network that may lose, duplicate, delay and reorder
   anything ever sent, and an environment adding and deleting keys and restarting either end *)
EXTENDS KvpSync
CONSTANTS MAXNOW, MAXGEN, MAXUPD, SRESTARTS, RRESTARTS
VARIABLES net, acks, nrid
mvars == <<vars, net, acks, nrid>>

MCInit ==
    /\ now = 1 /\ gens = <<>> /\ cache = [k \in Keys |-> 0]
    /\ snd = NewSnd(1, {}, 0) /\ rcv = NewRcv(1) /\ pend = {}
    /\ net = {} /\ acks = {<<1, 0>>} /\ nrid = 1

Syncs == IF snd.sync # 0 THEN {snd.sync} ELSE {Cardinality(snd.used) + 1}
NextUpd == Cardinality(DOMAIN snd.sent) + 1
\* the longest OK period the contract allows is the most dangerous
Latest == LET lim == {now + RESP} \cup {gens[g].t + RESP : g \in {x \in LiveGens : ~gens[x].cb}}
          IN CHOOSE e \in lim : \A f \in lim : e <= f
Exps == IF snd.ok THEN {Latest} ELSE {0}
Fresh ==
    {[ty |-> t, sync |-> s, upd |-> NextUpd, rs |-> IF t = "start" THEN snd.rs ELSE 0, k |-> 0, g |-> 0, d |-> 0, exp |-> e] :
        t \in {"start", "flush", "empty"}, s \in Syncs, e \in Exps}
    \cup {[ty |-> "insert", sync |-> s, upd |-> NextUpd, rs |-> 0, k |-> gens[g].k, g |-> g, d |-> 0, exp |-> e] :
        s \in Syncs, e \in Exps, g \in LiveGens}
    \cup {[ty |-> "delete", sync |-> s, upd |-> NextUpd, rs |-> 0, k |-> snd.sent[u].c.k, g |-> 0, d |-> u, exp |-> e] :
        s \in Syncs, e \in Exps, u \in {x \in DOMAIN snd.sent : snd.sent[x].c.ty = "insert"}}
Again == {[ty |-> snd.sent[u].c.ty, sync |-> s, upd |-> u, rs |-> snd.sent[u].c.rs, k |-> snd.sent[u].c.k,
           g |-> snd.sent[u].c.g, d |-> snd.sent[u].c.d, exp |-> e] : s \in Syncs, e \in Exps, u \in DOMAIN snd.sent \ snd.acked}
Bounded(p) == p.upd <= MAXUPD

DoSend == /\ BeliefTimely
          /\ \E p \in {x \in Fresh \cup Again : Bounded(x)} :
             /\ Send(p) /\ net' = net \cup {p} /\ UNCHANGED <<acks, nrid>>
DoDeliver == \E p \in net : /\ RecvState(rcv, p) # rcv \/ RecvAck(rcv, p) \notin acks
                           /\ Deliver(p) /\ acks' = acks \cup {RecvAck(rcv, p)} /\ UNCHANGED nrid
                           \* assumption: once a rebooted replica starts synchronising, packets of earlier
                           \* synchronisations do not arrive any more
                           /\ net' = IF ~rcv.acked /\ Boots(rcv, p) THEN {q \in net : q.sync >= p.sync} ELSE net
DoAck == \E a \in acks : /\ IsResync(a[1], a[2]) \/ ~Stale(a[1], a[2])
                         /\ HandleAck(a[1], a[2])
                         /\ UNCHANGED <<net, acks, nrid>>
DoCb == \E g \in pend : Callback(g) /\ UNCHANGED <<net, acks, nrid>>
DoBelief == (BelieveOk \/ BelieveNotOk) /\ UNCHANGED <<net, acks, nrid>>
DoAdd == Len(gens) < MAXGEN /\ \E k \in Keys : Add(k) /\ UNCHANGED <<net, acks, nrid>>
DoDel == \E k \in Keys : cache[k] # 0 /\ Del(k) /\ UNCHANGED <<net, acks, nrid>>
DoTime == now < MAXNOW /\ BeliefTimely /\ Advance(now + 1) /\ UNCHANGED <<net, acks, nrid>>
DoSR == snd.life <= SRESTARTS /\ SenderRestart /\ acks' = {a \in acks : FALSE} /\ UNCHANGED <<net, nrid>>
\* a restarted receiver announces itself with a resync request
DoRR == nrid <= RRESTARTS /\ RecvRestart(nrid + 1) /\ nrid' = nrid + 1 /\ acks' = acks \cup {<<nrid + 1, 0>>}
        /\ UNCHANGED net

MCNext == IF pend # {} THEN DoCb
          ELSE DoSend \/ DoDeliver \/ DoAck \/ DoBelief \/ DoAdd \/ DoDel \/ DoTime \/ DoSR \/ DoRR
MCSpec == MCInit /\ [][MCNext]_mvars
\* with FAULT = 0 the congestion window plays no role, so send times do not matter
View == <<now, gens, cache, rcv, pend, net, acks, nrid,
          [snd EXCEPT !.sent = [u \in DOMAIN snd.sent |-> snd.sent[u].c], !.acks = 0]>>
\* deliveries that change nothing are not explored
Small == Len(rcv.starts) <= 3 /\ Cardinality(snd.used) <= 3
=============================================================================
