------------------------------ MODULE KvpSend ------------------------------
(* The challenge publication service (server/kvpsend): subscribers name a challenge and are told when the DNS
   replicas serve it.  db is the database, ent what the service publishes, ackd what each replica has
   acknowledged in its current synchronisation, ok the replicas considered healthy.
   Every call into the service is atomic: Begin, then its outputs, then End. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, Peers,
          SCAN,      \* a full scan at least this often (15000 ms)
          SUBT,      \* a subscriber waits at most this long (60000 ms)
          RESP,      \* a replica which has not acknowledged a challenge this old is not healthy (15000 ms)
          SLACK      \* longest time a datagram waits in the socket (ms)
VARIABLES now, db, ent, ok, ackd, wait, xdue, cur, lastscan, rx, call
vars == <<now, db, ent, ok, ackd, wait, xdue, cur, lastscan, rx, call>>

None == [i |-> 0, n |-> 0, c |-> 0]
Gone == [c |-> 0, at |-> 0, rdy |-> FALSE]
Init0(t) ==
    /\ now = t /\ db = [n \in Names |-> 0] /\ ent = [n \in Names |-> Gone] /\ ok = {} /\ ackd = [p \in Peers |-> {}]
    /\ wait = {} /\ xdue = {} /\ cur = None /\ lastscan = t /\ rx = [p \in Peers |-> t] /\ call = ""

Acked(p, n) == <<n, ent[n].c>> \in ackd[p]
\* at least one replica is healthy and all healthy ones have acknowledged what is published
Served(n, okk, ack) == ent[n].c # 0 /\ okk # {} /\ \A p \in okk : <<n, ent[n].c>> \in ack[p]
Latch(okk, ack) == [n \in Names |-> IF Served(n, okk, ack) THEN [ent[n] EXCEPT !.rdy = TRUE] ELSE ent[n]]

(* what the database says of the names in S becomes published; subscribers of the old challenge are let go *)
Sync(S) ==
    LET ch == {n \in S : ent[n].c # db[n]} IN
    /\ ent' = [n \in Names |-> IF n \notin ch THEN ent[n] ELSE IF db[n] = 0 THEN Gone ELSE [c |-> db[n], at |-> now, rdy |-> FALSE]]
    /\ xdue' = xdue \union {w.i : w \in {v \in wait : v.n \in ch}}
    /\ wait' = {w \in wait : w.n \notin ch}
    /\ ackd' = [p \in Peers |-> {a \in ackd[p] : a[1] \notin ch}]

DbSet(n, c) == call = "" /\ db' = [db EXCEPT ![n] = c] /\ UNCHANGED <<now, ent, ok, ackd, wait, xdue, cur, lastscan, rx, call>>

Begin(k, i, n, c) ==
    /\ call = "" /\ call' = k
    /\ CASE k = "scan" -> Sync(Names) /\ lastscan' = now /\ UNCHANGED cur
         [] k = "sub" -> Sync({n} \ {0}) /\ cur' = [i |-> i, n |-> n, c |-> c] /\ UNCHANGED lastscan
         [] OTHER -> UNCHANGED <<ent, xdue, wait, ackd, cur, lastscan>>
    /\ UNCHANGED <<now, db, ok, rx>>

\* an acknowledgement of a published challenge / of anything else / a replica asks to be synchronised from scratch
Ack(p, n, c) ==
    /\ rx' = [rx EXCEPT ![p] = now]
    /\ ackd' = IF n \in Names /\ c # 0 /\ ent[n].c = c THEN [ackd EXCEPT ![p] = @ \union {<<n, c>>}] ELSE ackd
    /\ ent' = Latch(ok, ackd')
    /\ UNCHANGED <<now, db, ok, wait, xdue, cur, lastscan, call>>
Resync(p) ==
    /\ rx' = [rx EXCEPT ![p] = now]
    /\ ackd' = [ackd EXCEPT ![p] = {}]
    /\ UNCHANGED <<now, db, ent, ok, wait, xdue, cur, lastscan, call>>
\* a replica becomes healthy only with everything published; when it stops being healthy it no longer counts
State(p, up) ==
    /\ up => (p \notin ok /\ \A n \in Names : ent[n].c # 0 => Acked(p, n))
    /\ ~up => p \in ok
    /\ ok' = IF up THEN ok \union {p} ELSE ok \ {p}
    /\ ent' = Latch(ok', ackd)
    /\ UNCHANGED <<now, db, ackd, wait, xdue, cur, lastscan, rx, call>>

Valid(s) == s.n # 0 /\ s.c # 0 /\ db[s.n] = s.c
Keep == UNCHANGED <<now, db, ent, ok, ackd, lastscan, rx, call>>
TellReady(i) ==
    \/ /\ i = cur.i /\ i # 0 /\ Valid(cur) /\ ent[cur.n].rdy /\ \A p \in ok : Acked(p, cur.n)
       /\ cur' = None /\ UNCHANGED <<wait, xdue>> /\ Keep
    \/ \E w \in wait : /\ w.i = i /\ ent[w.n].rdy /\ \A p \in ok : Acked(p, w.n)
                       /\ wait' = wait \ {w} /\ UNCHANGED <<cur, xdue>> /\ Keep
Close(i) ==
    \/ i \in xdue /\ xdue' = xdue \ {i} /\ UNCHANGED <<wait, cur>> /\ Keep
    \/ i = cur.i /\ i # 0 /\ ~Valid(cur) /\ cur' = None /\ UNCHANGED <<wait, xdue>> /\ Keep
    \/ call = "free" /\ (\E w \in wait : w.i = i /\ wait' = wait \ {w}) /\ UNCHANGED <<xdue, cur>> /\ Keep
TellTimeout(i) ==
    \E w \in wait : w.i = i /\ w.dl <= now /\ wait' = wait \ {w} /\ UNCHANGED <<xdue, cur>> /\ Keep
\* the call is over: everything it owed has been said
End ==
    /\ call # "" /\ call' = ""
    /\ xdue = {}
    /\ \A w \in wait : ~ent[w.n].rdy
    /\ call = "tmo" => \A w \in wait : w.dl > now
    /\ call = "free" => wait = {}
    /\ IF cur = None THEN UNCHANGED wait
       ELSE Valid(cur) /\ ~ent[cur.n].rdy /\ wait' = wait \union {[i |-> cur.i, n |-> cur.n, c |-> cur.c, dl |-> now + SUBT]}
    /\ cur' = None
    /\ UNCHANGED <<now, db, ent, ok, ackd, xdue, lastscan, rx>>

Healthy(p, t) == /\ t <= rx[p] + 2 * RESP + SLACK
                 /\ \A n \in Names : (ent[n].c # 0 /\ ~Acked(p, n)) => t <= ent[n].at + RESP + SLACK
Advance(t) ==
    /\ call = "" /\ t > now
    /\ \A w \in wait : t <= w.dl
    /\ t <= lastscan + SCAN
    /\ \A p \in ok : Healthy(p, t)
    /\ now' = t /\ UNCHANGED <<db, ent, ok, ackd, wait, xdue, cur, lastscan, rx, call>>

\* nothing is published which the last scan did not see, nobody waits for a challenge which is not published
Consistent == \A w \in wait : w.c = ent[w.n].c /\ w.c # 0
HealthyServe == \A p \in ok : \A n \in Names : (ent[n].c # 0 /\ ent[n].rdy /\ call = "") => Acked(p, n)
=============================================================================
