----------------------------- MODULE ImaildirMC -----------------------------
(* The citm's own mechanism (one synchronising upstream connection, a box, a queue of updates per client session which is
   gathered when a command is answered, relayed commands answered through the same queue) run inside the contract of
   Imaildir.tla: every response the mechanism produces has to be a step which the contract allows, in every interleaving
   of server, connection and clients within the bounds.  BUG picks a way to break the mechanism, to show that the contract
   notices it. *)
EXTENDS Imaildir
CONSTANTS SESSIONS, NMSG, NSRV, NCMD, NDROP, KINDS, BUG
VARIABLES chan, upq, conn, u, told, q, mv, mf, out, msel, wait, nsrv, ncmd, ndrop, ntag, execs, bad

mech == <<chan, upq, conn, u, told, q, mv, mf, out, msel, wait, nsrv, ncmd, ndrop, ntag, execs>>
allv == <<vars, mech, bad>>
None == [kind |-> "none"]

MCInit == /\ Init
          /\ chan = <<>> /\ upq = <<>> /\ conn = FALSE /\ u = 0 /\ told = Empty
          /\ q = [j \in SESSIONS |-> <<>>] /\ mv = [j \in SESSIONS |-> <<>>] /\ mf = [j \in SESSIONS |-> Empty]
          /\ out = [j \in SESSIONS |-> <<>>] /\ msel = [j \in SESSIONS |-> FALSE] /\ wait = [j \in SESSIONS |-> None]
          /\ nsrv = 0 /\ ncmd = 0 /\ ndrop = 0 /\ ntag = 0 /\ execs = Empty /\ bad = FALSE

(* a session whose verdict has come answers before anything else happens *)
Due(j) == wait[j].kind = "relay" /\ \E i \in DOMAIN q[j] : q[j][i].k = "SYNC"
Sending == \E j \in SESSIONS : out[j] # <<>>
Busy == Sending \/ \E j \in SESSIONS : Due(j)
OpenS == \E j \in SESSIONS : msel[j] \/ wait[j].kind = "sel"
Synced == conn /\ \A i \in DOMAIN chan : chan[i].m # "synced"
Sorted(S) == SelectSeq(ord, LAMBDA c : c \in S)
UidOf(c) == CHOOSE i \in DOMAIN ord : ord[i] = c

-----------------------------------------------------------------------------
(* the server; while the connection is up it is told at once *)
NextCid == Cardinality(DOMAIN told \cup DOMAIN srv \cup DOMAIN box) + 1
\* told remembers every cid ever used: numbers are never reused
SNew == /\ nsrv < NSRV /\ ~Busy
        /\ LET c == Cardinality(DOMAIN told) + 1 IN
           /\ c <= NMSG
           /\ SrvNew(c, 0, FALSE)
           /\ told' = Put(told, c, 0)
           /\ chan' = IF conn THEN chan \o <<[m |-> "meta", c |-> c, f |-> 0], [m |-> "body", c |-> c, f |-> 0]>> ELSE chan
        /\ nsrv' = nsrv + 1
        /\ UNCHANGED <<upq, conn, u, q, mv, mf, out, msel, wait, ncmd, ndrop, ntag, execs, bad>>
SFlags == /\ nsrv < NSRV /\ ~Busy
          /\ \E c \in DOMAIN srv, f \in {0, SEEN, DELETED} :
               /\ f # srv[c] /\ SrvFlags(c, f)
               /\ chan' = IF conn THEN Append(chan, [m |-> "meta", c |-> c, f |-> f]) ELSE chan
          /\ nsrv' = nsrv + 1
          /\ UNCHANGED <<upq, conn, u, told, q, mv, mf, out, msel, wait, ncmd, ndrop, ntag, execs, bad>>
SGone == /\ nsrv < NSRV /\ ~Busy
         /\ \E c \in DOMAIN srv :
              /\ SrvGone(c)
              /\ chan' = IF conn THEN Append(chan, [m |-> "gone", cs |-> {c}]) ELSE chan
         /\ nsrv' = nsrv + 1
         /\ UNCHANGED <<upq, conn, u, told, q, mv, mf, out, msel, wait, ncmd, ndrop, ntag, execs, bad>>
(* the server carries out a relayed command *)
Exec == /\ upq # <<>> /\ conn /\ ~Busy
        /\ LET r == Head(upq)
               there == {c \in r.cs : c \in DOMAIN srv}
               ns == IF r.kind = "store" THEN [c \in DOMAIN srv |-> IF c \in there THEN Apply(r.sg, srv[c], r.f) ELSE srv[c]]
                     ELSE [c \in DOMAIN srv \ {c \in there : (srv[c] & DELETED) # 0} |-> srv[c]]
               rep == IF r.kind = "store" THEN [i \in 1..Cardinality(there) |->
                             LET c == CHOOSE c \in there : Cardinality({d \in there : d < c}) = i - 1 IN [m |-> "meta", c |-> c, f |-> ns[c]]]
                      ELSE IF DOMAIN srv = DOMAIN ns THEN <<>> ELSE <<[m |-> "gone", cs |-> DOMAIN srv \ DOMAIN ns]>>
           IN /\ srv' = ns
              /\ chan' = chan \o rep \o <<[m |-> "verdict", t |-> r.t, ok |-> TRUE]>>
              /\ execs' = Put(execs, r.t, IF r.t \in DOMAIN execs THEN execs[r.t] + 1 ELSE 1)
        /\ upq' = Tail(upq)
        /\ UNCHANGED <<n4m, box, ord, uid, minuid, maxn, hist, sess, rel, dead, uv, life, base, rmf, cno, orph>>
        /\ UNCHANGED <<conn, u, told, q, mv, mf, out, msel, wait, nsrv, ncmd, ndrop, ntag, bad>>

-----------------------------------------------------------------------------
(* the upstream connection *)
Seqn(S, F(_)) == [i \in 1..Cardinality(S) |-> F(CHOOSE c \in S : Cardinality({d \in S : d < c}) = i - 1)]
Connect ==
    /\ ~conn /\ OpenS /\ ~Busy
    /\ SrvSelect
    /\ LET live == DOMAIN srv
           lost == {c \in DOMAIN told : c \notin DOMAIN srv}
           M(c) == [m |-> "meta", c |-> c, f |-> srv[c]]
           B(c) == [m |-> "body", c |-> c, f |-> srv[c]]
           unf == {c \in live : c \notin DOMAIN box \/ box[c].st = "unf"}
       IN chan' = (IF lost # {} THEN <<[m |-> "gone", cs |-> lost]>> ELSE <<>>) \o Seqn(live, M) \o Seqn(unf, B) \o <<[m |-> "synced"]>>
    /\ conn' = TRUE /\ u' = u + 1
    \* relayed commands without an answer are sent again
    /\ upq' = <<>>
    /\ UNCHANGED <<told, q, mv, mf, out, msel, wait, nsrv, ncmd, ndrop, ntag, execs, bad>>
Resend ==
    /\ conn /\ ~Busy
    /\ \E t \in DOMAIN rel :
         /\ rel[t].res = "none" /\ u \notin rel[t].by
         /\ \A t2 \in DOMAIN rel : (t2 < t /\ rel[t2].res = "none") => u \in rel[t2].by
         /\ Relay(rel[t].kinds, u, t, rel[t].cs, rel[t].sg, rel[t].f)
         /\ upq' = Append(upq, [t |-> t, kind |-> IF "store" \in rel[t].kinds THEN "store" ELSE "expunge", cs |-> rel[t].cs, sg |-> rel[t].sg, f |-> rel[t].f])
    /\ UNCHANGED <<chan, conn, u, told, q, mv, mf, out, msel, wait, nsrv, ncmd, ndrop, ntag, execs, bad>>
Drop == /\ conn /\ ndrop < NDROP /\ ~Busy
        /\ UpDead(u)
        /\ conn' = FALSE /\ chan' = <<>> /\ upq' = <<>> /\ ndrop' = ndrop + 1
        /\ UNCHANGED <<u, told, q, mv, mf, out, msel, wait, nsrv, ncmd, ntag, execs, bad>>

PushAll(e) == [j \in SESSIONS |-> IF msel[j] THEN Append(q[j], e) ELSE q[j]]
Recv ==
    /\ chan # <<>> /\ ~Busy
    /\ LET x == Head(chan) IN
       /\ CASE x.m = "meta" -> /\ RxMeta(x.c, x.f)
                               /\ q' = IF x.c \in DOMAIN box /\ box[x.c].st = "fill" /\ box[x.c].f # x.f THEN PushAll([k |-> "META", c |-> x.c, f |-> x.f]) ELSE q
                               /\ UNCHANGED <<wait, life>>
            [] x.m = "body" -> /\ RxBody(x.c, IF x.c \in DOMAIN box THEN box[x.c].f ELSE x.f, FALSE)
                               /\ q' = IF (x.c \notin DOMAIN box \/ box[x.c].st = "unf") THEN PushAll([k |-> "NEW", c |-> x.c, f |-> IF x.c \in DOMAIN box THEN box[x.c].f ELSE x.f]) ELSE q
                               /\ UNCHANGED <<wait, life>>
            [] x.m = "gone" -> /\ RxGone(x.cs)
                               /\ q' = LET ex == {c \in x.cs : c \in DOMAIN box /\ box[c].st = "fill"}
                                           es == Seqn(ex, LAMBDA c : [k |-> "EXP", c |-> c, f |-> 0])
                                       IN [j \in SESSIONS |-> IF msel[j] THEN q[j] \o es ELSE q[j]]
                               /\ UNCHANGED <<wait, life>>
            [] x.m = "verdict" -> /\ Verdict(u, x.t, x.ok)
                                  /\ LET j == rel[x.t].j IN
                                     q' = IF j \in SESSIONS /\ wait[j].kind = "relay" /\ BUG # "lostsync" THEN [q EXCEPT ![j] = Append(@, [k |-> "SYNC", c |-> x.t, f |-> 0])] ELSE q
                                  /\ UNCHANGED <<wait, life>>
            [] OTHER -> UNCHANGED vars /\ q' = q /\ wait' = wait
    /\ chan' = Tail(chan)
    /\ UNCHANGED <<upq, conn, u, told, mv, mf, out, msel, nsrv, ncmd, ndrop, ntag, execs, bad>>

-----------------------------------------------------------------------------
(* gather(j, allow): what the update queue amounts to up to a SYNC: new views, responses and the rest of the queue *)
RECURSIVE Gath(_, _)
Gath(a, rest) ==
    IF rest = <<>> THEN a
    ELSE LET x == Head(rest) IN
         IF a.stop THEN Gath([a EXCEPT !.left = Append(@, x)], Tail(rest))
         ELSE CASE x.k = "NEW"  -> Gath([a EXCEPT !.v = Append(@, x.c), !.f = Put(@, x.c, x.f), !.news = @ \cup {x.c}], Tail(rest))
                [] x.k = "META" -> Gath(IF x.c \in Rng(a.v) THEN [a EXCEPT !.f = Put(@, x.c, x.f), !.metas = @ \cup {x.c}] ELSE a, Tail(rest))
                [] x.k = "EXP"  -> Gath(IF a.allow THEN [a EXCEPT !.exps = @ \cup {x.c}] ELSE [a EXCEPT !.left = Append(@, x)], Tail(rest))
                [] OTHER        -> Gath([a EXCEPT !.stop = TRUE, !.sync = TRUE], Tail(rest))
Gather(j, allow) == Gath([v |-> mv[j], f |-> mf[j], news |-> {}, metas |-> {}, exps |-> {}, left |-> <<>>, stop |-> FALSE, sync |-> FALSE, allow |-> allow], q[j])
IndexOf(v, c) == CHOOSE i \in DOMAIN v : v[i] = c
RECURSIVE Exps(_, _)
Exps(v, S) == IF S = {} THEN <<>> ELSE LET c == CHOOSE c \in S : \A d \in S : IndexOf(v, d) <= IndexOf(v, c)
                                       IN <<[e |-> "exp", k |-> IndexOf(v, c)]>> \o Exps(v, S \ {c})
(* emission: FETCHes, EXPUNGEs, EXISTS; more: messages the command itself must report *)
Emit(j, allow, more, body, tail) ==
    LET g == Gather(j, allow)
        unborn == IF BUG = "unborn" THEN {} ELSE g.news \cap g.exps     \* arrived and vanished unannounced
        v0 == SelectSeq(g.v, LAMBDA c : c \notin unborn)
        ex == g.exps \ unborn
        news == g.news \ unborn
        old == {c \in Rng(v0) : c \notin news}
        fet == (more \cap old) \cup ((old \cap g.metas) \ ex)
        fetches == [i \in 1..Cardinality(fet) |-> LET c == CHOOSE c \in fet : Cardinality({d \in fet : IndexOf(v0, d) < IndexOf(v0, c)}) = i - 1
                       IN [e |-> "fet", k |-> IndexOf(v0, c), u |-> UidOf(c), f |-> IF BUG = "stale" /\ c \in DOMAIN mf[j] THEN mf[j][c] ELSE g.f[c], c |-> IF body /\ c \in more THEN c ELSE -1]]
        v1 == SelectSeq(v0, LAMBDA c : c \notin ex)
    IN /\ out' = [out EXCEPT ![j] = fetches \o Exps(v0, ex \cap Rng(v0)) \o (IF news # {} THEN <<[e |-> "exi", n |-> Len(v1)]>> ELSE <<>>) \o tail]
       /\ mv' = [mv EXCEPT ![j] = v1]
       /\ mf' = [mf EXCEPT ![j] = [c \in Rng(v1) |-> g.f[c]]]
       /\ q' = [q EXCEPT ![j] = g.left]
Tag(st) == <<[e |-> "tag", st |-> st]>>

(* a client's command arrives and is either answered at once or relayed *)
IsBusy(j) == j \in DOMAIN sess /\ sess[j].k # "none"
Start ==
    /\ ncmd < NCMD /\ ~Busy
    /\ \E j \in SESSIONS :
       /\ ~IsBusy(j)
       /\ \/ /\ ~msel[j] /\ Cmd(j, "sel", FALSE, {}, "", 0, FALSE, FALSE, FALSE)
             /\ wait' = [wait EXCEPT ![j] = [kind |-> "sel"]]
             /\ UNCHANGED <<q, mv, mf, out, msel>>
          \/ /\ msel[j] /\ "noop" \in KINDS /\ Cmd(j, "noop", FALSE, {}, "", 0, FALSE, FALSE, FALSE)
             /\ Emit(j, TRUE, {}, FALSE, Tag("OK")) /\ UNCHANGED <<wait, msel>>
          \/ /\ msel[j] /\ "fetch" \in KINDS
             /\ \E ks \in SUBSET (1..Len(mv[j])), b \in BOOLEAN : ks # {} /\ Cmd(j, "fetch", FALSE, ks, "", 0, FALSE, b, FALSE)
                   /\ Emit(j, BUG = "expinfetch", {mv[j][k] : k \in ks}, b, Tag("OK"))
             /\ UNCHANGED <<wait, msel>>
          \/ /\ msel[j] /\ "store" \in KINDS
             /\ \E ks \in SUBSET (1..Len(mv[j])), sg \in {"+", "-"} : ks # {} /\ Cmd(j, "store", FALSE, ks, sg, DELETED, FALSE, FALSE, FALSE)
                   /\ wait' = [wait EXCEPT ![j] = [kind |-> "want", cmd |-> "store", cs |-> {mv[j][k] : k \in ks}, sg |-> sg, f |-> DELETED]]
             /\ UNCHANGED <<q, mv, mf, out, msel>>
          \/ /\ msel[j] /\ "expunge" \in KINDS
             /\ Cmd(j, "expunge", FALSE, {}, "", 0, FALSE, FALSE, FALSE)
             /\ LET cs == {c \in Rng(mv[j]) : (mf[j][c] & DELETED) # 0} IN
                IF cs = {} THEN Emit(j, TRUE, {}, FALSE, Tag("OK")) /\ UNCHANGED <<wait, msel>>
                ELSE wait' = [wait EXCEPT ![j] = [kind |-> "want", cmd |-> "expunge", cs |-> cs, sg |-> "", f |-> 0]] /\ UNCHANGED <<q, mv, mf, out, msel>>
    /\ ncmd' = ncmd + 1
    /\ UNCHANGED <<chan, upq, conn, u, told, nsrv, ndrop, ntag, execs, bad>>
Send ==
    /\ conn /\ ~Busy
    /\ \E j \in SESSIONS :
       /\ wait[j].kind = "want" /\ \A i \in SESSIONS : wait[i].kind = "want" => sess[j].no <= sess[i].no
       /\ IF wait[j].cmd = "store" THEN RelayStore(u, ntag, wait[j].cs, wait[j].sg, wait[j].f) ELSE RelayExpunge(u, ntag, wait[j].cs)
       /\ upq' = Append(upq, [t |-> ntag, kind |-> wait[j].cmd, cs |-> wait[j].cs, sg |-> wait[j].sg, f |-> wait[j].f])
       /\ ntag' = ntag + 1
       /\ wait' = [wait EXCEPT ![j].kind = "relay"]
    /\ UNCHANGED <<chan, conn, u, told, q, mv, mf, out, msel, nsrv, ncmd, ndrop, execs, bad>>
(* answers which were waiting *)
Answer ==
    /\ ~Sending
    /\ \E j \in SESSIONS :
       \/ /\ Due(j)
          /\ LET g == Gather(j, wait[j].cmd # "store")
                 more == IF wait[j].cmd = "store" THEN {c \in wait[j].cs : c \in Rng(mv[j])} ELSE {}
             IN Emit(j, wait[j].cmd # "store", more, FALSE, Tag("OK"))
          /\ wait' = [wait EXCEPT ![j] = None] /\ UNCHANGED msel
       \/ /\ wait[j].kind = "sel" /\ Synced
          /\ LET v == Vis(Now) IN /\ mv' = [mv EXCEPT ![j] = v] /\ mf' = [mf EXCEPT ![j] = [c \in Rng(v) |-> box[c].f]]
                                  /\ out' = [out EXCEPT ![j] = <<[e |-> "exi", n |-> Len(v)]>> \o Tag("OK")]
          /\ wait' = [wait EXCEPT ![j] = None] /\ msel' = [msel EXCEPT ![j] = TRUE] /\ q' = [q EXCEPT ![j] = <<>>]
    /\ UNCHANGED vars
    /\ UNCHANGED <<chan, upq, conn, u, told, nsrv, ncmd, ndrop, ntag, execs, bad>>
(* each response has to be one the contract allows *)
Allowed(j, x) == CASE x.e = "exi" -> Exists(j, x.n)
                   [] x.e = "exp" -> Expunge(j, x.k)
                   [] x.e = "fet" -> Fetch(j, x.k, x.u, x.f, x.c)
                   [] OTHER -> Tagged(j, x.st)
Deliver ==
    \E j \in SESSIONS :
       /\ out[j] # <<>>
       /\ \/ /\ Allowed(j, Head(out[j])) /\ UNCHANGED bad
          \/ /\ ~ENABLED Allowed(j, Head(out[j])) /\ bad' = TRUE /\ UNCHANGED vars
       /\ out' = [out EXCEPT ![j] = Tail(@)]
       /\ UNCHANGED <<chan, upq, conn, u, told, q, mv, mf, msel, wait, nsrv, ncmd, ndrop, ntag, execs>>

MCNext == ~bad /\ (SNew \/ SFlags \/ SGone \/ Exec \/ Connect \/ Resend \/ Drop \/ Recv \/ Start \/ Send \/ Answer \/ Deliver)
MCSpec == MCInit /\ [][MCNext]_allv

Fair == bad = FALSE
UidsDistinct == \A a, b \in DOMAIN uid : a # b => uid[a] # uid[b]
UidsOrdered == \A i, h \in DOMAIN ord : (i < h /\ ord[i] \in DOMAIN uid /\ ord[h] \in DOMAIN uid) => uid[ord[i]] < uid[ord[h]]
ViewsSound == \A j \in DOMAIN sess : \A a, b \in DOMAIN sess[j].view : a < b => UidOf(sess[j].view[a]) < UidOf(sess[j].view[b])
(* a relayed command is carried out once, unless the connection broke *)
OnceEach == \A t \in DOMAIN execs : execs[t] <= 1 + ndrop
(* nothing is left waiting when nothing can happen any more *)
Idle == /\ chan = <<>> /\ upq = <<>> /\ ~Busy /\ (conn \/ ~OpenS)
        /\ \A t \in DOMAIN rel : rel[t].res # "none"
NobodyWaits == (Idle /\ conn) => \A j \in SESSIONS : (wait[j].kind = "relay" => Due(j))
(* when all is quiet the box is the server's mailbox *)
Converged == (Idle /\ conn) => /\ {c \in DOMAIN box : box[c].st = "fill"} = DOMAIN srv
                               /\ \A c \in DOMAIN srv : box[c].f = srv[c]
(* and a session which has emptied its queue sees exactly that *)
Agree == (Idle /\ conn) => \A j \in SESSIONS : (msel[j] /\ q[j] = <<>> /\ ~IsBusy(j)) => mv[j] = Vis(Now) /\ sess[j].view = mv[j]
=============================================================================
