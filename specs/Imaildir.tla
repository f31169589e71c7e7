------------------------------ MODULE Imaildir ------------------------------
(* What a mail client below the citm may see of one mailbox, and what the mail server above it may be asked to do,
   given what the server has told the citm.  One instance describes one mailbox directory of one account, shared by any
   number of client sessions, each with an upstream connection of its own.

   srv    the server's truth             cid -> flags (present messages only)
   box    what the citm has been told    cid -> [st, f]   st: unf (known), fill (downloaded), n4m (not for this device),
                                                          lim (downloaded at the instant of a crash: may be lost), gone
   ord    downloaded messages in the order of their local UIDs (= order of download)
   uid    local UIDs clients have been shown
   hist   versions of the visible mailbox; sessions are compared with a version inside a window
   sess   per client session: what that client now believes, and its command in progress
   rel    per relayed command: contents, carrying connections, verdict                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

VARIABLES srv, n4m, box, ord, uid, minuid, maxn, hist, sess, rel, dead, uv, life, base, rmf, cno, orph

vars == <<srv, n4m, box, ord, uid, minuid, maxn, hist, sess, rel, dead, uv, life, base, rmf, cno, orph>>

Empty == [x \in {} |-> 0]
Rng(s) == {s[i] : i \in DOMAIN s}
Put(f, k, v) == (k :> v) @@ f
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : x >= y
Del(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
DELETED == 16
SEEN == 4
Apply(sg, f, m) == CASE sg = "+" -> f | m [] sg = "-" -> f - (f & m) [] OTHER -> m

(* the mailbox as it should be shown *)
Filled(b) == {c \in DOMAIN b : b[c].st \in {"fill", "lim"} \/ (b[c].st = "gone" /\ b[c].was)}
Shot(b, o) == [fl |-> [c \in Filled(b) |-> b[c].f], gone |-> {c \in DOMAIN b : b[c].st = "gone"}, n |-> Len(o)]
Now == hist[Len(hist)]
Vis(S) == SelectSeq(SubSeq(ord, 1, S.n), LAMBDA c : c \notin S.gone)
VisSet(S) == DOMAIN S.fl \ S.gone
Push(b, o) == IF Shot(b, o) = Now THEN hist ELSE Append(hist, Shot(b, o))

Init ==
    /\ srv = Empty /\ n4m = {} /\ box = Empty /\ ord = <<>> /\ uid = Empty /\ minuid = Empty /\ maxn = 0
    /\ hist = <<[fl |-> Empty, gone |-> {}, n |-> 0]>>
    /\ sess = Empty /\ rel = Empty /\ dead = {} /\ uv = [up |-> 0, dn |-> 0, chg |-> FALSE]
    /\ life = [fresh |-> TRUE, recov |-> FALSE, synced |-> FALSE, open |-> FALSE]
    /\ base = Empty /\ rmf = {} /\ cno = 0 /\ orph = {}

-----------------------------------------------------------------------------
(* the server changes *)
SrvNew(c, f, nm) == /\ srv' = Put(srv, c, f) /\ n4m' = IF nm THEN n4m \cup {c} ELSE n4m
                    /\ UNCHANGED <<box, ord, uid, minuid, maxn, hist, sess, rel, dead, uv, life, base, rmf, cno, orph>>
SrvFlags(c, f) == /\ srv' = [srv EXCEPT ![c] = f]
                  /\ UNCHANGED <<n4m, box, ord, uid, minuid, maxn, hist, sess, rel, dead, uv, life, base, rmf, cno, orph>>
SrvGone(c) == /\ srv' = [x \in DOMAIN srv \ {c} |-> srv[x]]
              /\ UNCHANGED <<n4m, box, ord, uid, minuid, maxn, hist, sess, rel, dead, uv, life, base, rmf, cno, orph>>

(* the server executes the SELECT of an upstream connection.  The first one after the mailbox was opened brings the citm
   up to the server's present state, whatever happened while it was closed or down *)
SrvSelect ==
    /\ base' = IF life.fresh THEN srv ELSE base
    /\ IF life.fresh
       THEN LET dom == (DOMAIN srv \cup {c \in DOMAIN box : box[c].st = "gone"} \cup DOMAIN box)
                b == [c \in dom |->
                        IF c \in rmf /\ c \in DOMAIN box THEN [st |-> "gone", f |-> box[c].f, was |-> TRUE]
                        ELSE IF c \notin DOMAIN srv
                        THEN [st |-> "gone", f |-> IF c \in DOMAIN box THEN box[c].f ELSE 0,
                              was |-> IF c \in DOMAIN box THEN box[c].st = "fill" \/ box[c].was ELSE FALSE]
                        ELSE IF c \in DOMAIN box THEN [box[c] EXCEPT !.f = IF box[c].st = "gone" THEN @ ELSE srv[c]]
                        ELSE [st |-> "unf", f |-> srv[c], was |-> FALSE]]
            IN box' = b /\ hist' = Push(b, ord)
       ELSE UNCHANGED <<box, hist>>
    /\ life' = [life EXCEPT !.fresh = FALSE, !.open = TRUE]
    /\ UNCHANGED <<srv, n4m, ord, uid, minuid, maxn, sess, rel, dead, uv, rmf, cno, orph>>

-----------------------------------------------------------------------------
(* the server's untagged responses reach the citm *)
SetBox(b, o) == box' = b /\ ord' = o /\ hist' = Push(b, o)

RxMeta(c, f) ==
    /\ IF c \notin DOMAIN box THEN SetBox(Put(box, c, [st |-> "unf", f |-> f, was |-> FALSE]), ord)
       ELSE IF box[c].st \in {"gone", "n4m"} THEN UNCHANGED <<box, ord, hist>>
       ELSE SetBox([box EXCEPT ![c].f = f], ord)
    /\ UNCHANGED <<srv, n4m, uid, minuid, maxn, sess, rel, dead, uv, life, base, rmf, cno, orph>>

FillIn(c, f, nm) ==
    LET st0 == IF c \in DOMAIN box THEN box[c].st ELSE "unf"
        b == Put(box, c, [st |-> IF nm THEN "n4m" ELSE "fill", f |-> f, was |-> ~nm])
    IN IF st0 \in {"gone", "n4m"} THEN UNCHANGED <<box, ord, hist, minuid>>
       ELSE IF st0 = "fill" THEN SetBox([box EXCEPT ![c].f = f], ord) /\ UNCHANGED minuid
       ELSE /\ SetBox(b, IF nm THEN ord ELSE Append(ord, c))
            /\ minuid' = IF nm THEN minuid ELSE Put(minuid, c, maxn)
RxBody(c, f, nm) ==
    /\ FillIn(c, f, nm)
    /\ UNCHANGED <<srv, n4m, uid, maxn, sess, rel, dead, uv, life, base, rmf, cno, orph>>
(* the copy of a message the citm itself uploaded or had copied is kept without downloading it again.  What the
   server may have said about its flags in the meantime is newer *)
LocalFill(c, f) ==
    /\ FillIn(c, IF c \in DOMAIN box THEN box[c].f ELSE f, FALSE)
    /\ UNCHANGED <<srv, n4m, uid, maxn, sess, rel, dead, uv, life, base, rmf, cno, orph>>

RxGone(cs) ==
    LET b == [c \in DOMAIN box \cup cs |->
                IF c \notin cs THEN box[c]
                ELSE IF c \in DOMAIN box THEN [box[c] EXCEPT !.st = "gone", !.was = @ \/ box[c].st = "fill"]
                ELSE [st |-> "gone", f |-> 0, was |-> FALSE]]
    IN /\ SetBox(b, ord)
       /\ UNCHANGED <<srv, n4m, uid, minuid, maxn, sess, rel, dead, uv, life, base, rmf, cno, orph>>

(* the server's UIDVALIDITY, as told to the citm *)
RxVld(v) == /\ uv' = [uv EXCEPT !.up = v, !.chg = @ \/ (uv.up # 0 /\ uv.up # v)]
            /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, sess, rel, dead, life, base, rmf, cno, orph>>

-----------------------------------------------------------------------------
(* client commands *)
NewSess(j) == [view |-> <<>>, kn |-> <<>>, k |-> "none", ro |-> FALSE, sel |-> FALSE, wh |-> FALSE, snap |-> Len(hist),
               sync |-> Len(hist), no |-> 0, rs |-> "no", rt |-> -1, ts |-> {}, need |-> {}, bod |-> FALSE, sg |-> "",
               fm |-> 0, sil |-> FALSE, rec |-> FALSE, cause |-> FALSE, ptr |-> 0, sd |-> FALSE, np |-> FALSE, uo |-> FALSE, idle |-> FALSE, amb |-> FALSE]
At(s, ks) == {s.view[k] : k \in {k \in ks : k <= Len(s.view)}}
Upd(j, s) == sess' = Put(sess, j, s)
OnlySess == UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, rel, dead, uv, life, base, rmf, orph>>

Relayable == {"store", "expunge", "copy", "close", "fetch"}

Cmd(j, k, isuid, ks, sg, fm, sil, bod, np) ==
    LET s0 == IF j \in DOMAIN sess THEN sess[j] ELSE NewSess(j)
        ts == At(s0, ks)
        s1 == [s0 EXCEPT !.k = k, !.wh = ~isuid /\ k \in {"fetch", "store", "search"}, !.snap = Len(hist), !.no = cno + 1,
                         !.rs = IF k \in Relayable THEN "need" ELSE "no", !.rt = -1, !.amb = FALSE, !.ts = ts, !.sg = sg, !.fm = fm,
                         !.sil = sil, !.bod = bod, !.np = np, !.uo = isuid /\ k = "expunge", !.sd = FALSE, !.cause = @ \/ k = "logout",
                         !.need = IF (k = "fetch" \/ (k = "store" /\ ~sil)) /\ ~s0.rec THEN ts ELSE {},
                         !.kn = IF k = "store" /\ sil /\ ~s0.ro
                                THEN [x \in DOMAIN @ |-> IF x \in ks /\ @[x] # -1 THEN Apply(sg, @[x], fm) ELSE @[x]] ELSE @]
        s2 == IF k \in {"sel", "exa"} THEN [s1 EXCEPT !.ro = (k = "exa"), !.view = <<>>, !.kn = <<>>, !.sel = FALSE] ELSE s1
    IN /\ s0.k = "none"
       /\ Upd(j, s2) /\ cno' = cno + 1 /\ OnlySess

-----------------------------------------------------------------------------
(* what the citm sends a client *)

(* the version of the mailbox a command's answer must bring the client up to: a FETCH gathers news when it starts
   (or when the \Seen it implies was stored), everything else when it answers *)
VerOf(s) == IF s.k = "fetch" THEN s.snap ELSE Len(hist)
Base(s) == hist[VerOf(s)]
Go(j, s) == Upd(j, s) /\ OnlySess /\ UNCHANGED cno

(* EXISTS: after a SELECT the whole mailbox; later, the messages downloaded since, in UID order.  Where EXPUNGE may not
   be sent, one which vanished meanwhile is still counted; elsewhere it must never be mentioned *)
Exists(j, n) ==
    LET s == sess[j] S == Base(s) IN
    /\ s.k # "none"
    /\ IF s.k \in {"sel", "exa"}
       THEN LET v == IF life.recov THEN [i \in 1..Cardinality(VisSet(Now)) |-> 0] ELSE Vis(Now)
            IN /\ n = Len(v)
               /\ Go(j, [s EXCEPT !.view = v, !.kn = [i \in DOMAIN v |-> -1], !.rec = life.recov, !.ptr = Len(ord)])
       ELSE LET add == SelectSeq(SubSeq(ord, s.ptr + 1, S.n), LAMBDA c : s.wh \/ c \notin S.gone)
            IN /\ n = Len(s.view) + Len(add)
               /\ n > Len(s.view)
               /\ Go(j, [s EXCEPT !.view = @ \o add, !.kn = @ \o [i \in DOMAIN add |-> -1], !.ptr = S.n])

(* EXPUNGE: only of a message which is gone, only where allowed *)
Expunge(j, k) ==
    LET s == sess[j] IN
    /\ s.k \notin {"none", "sel", "exa"} /\ ~s.wh
    /\ k \in DOMAIN s.view
    /\ s.view[k] \in Base(s).gone
    /\ Go(j, [s EXCEPT !.view = Del(@, k), !.kn = Del(@, k)])

(* FETCH: position, message, local UID, contents and flags all belong together *)
UidOk(c, u) ==
    IF c \in DOMAIN uid THEN uid[c] = u
    ELSE /\ u \notin Rng(uid)
         /\ (c \in DOMAIN minuid => u >= minuid[c])
         /\ \A i \in 1..Len(ord), h \in 1..Len(ord) :
               (ord[i] = c /\ ord[h] \in DOMAIN uid) => /\ (h < i => uid[ord[h]] < u)
                                                        /\ (h > i => uid[ord[h]] > u)
Fetch(j, k, u, f, c) ==
    LET s == sess[j] S == Base(s) v == IF s.view[k] = 0 THEN c ELSE s.view[k] IN
    /\ s.k \notin {"none", "sel", "exa"}
    /\ k \in DOMAIN s.view
    /\ (c # -1 /\ s.view[k] # 0) => c = s.view[k]
    /\ s.view[k] = 0 => (c > 0 /\ u > 0 /\ c \in VisSet(S) /\ c \notin Rng(s.view)
                         /\ (k > 1 /\ s.view[k - 1] # 0) => (s.view[k-1] \in DOMAIN uid => uid[s.view[k - 1]] < u))
    /\ u # 0 => UidOk(v, u)
    /\ (f # -1 /\ v \notin S.gone) => f = S.fl[v]    \* flags of a message which is gone are nobody's business
    /\ uid' = IF u = 0 THEN uid ELSE Put(uid, v, u)
    /\ maxn' = IF u > maxn THEN u ELSE maxn
    /\ Upd(j, [s EXCEPT !.view[k] = v, !.kn[k] = IF f = -1 THEN @ ELSE f,
                        !.need = IF s.bod = (c # -1) \/ s.k # "fetch" THEN @ \ {v} ELSE @])
    /\ UNCHANGED <<srv, n4m, box, ord, minuid, hist, rel, dead, uv, life, base, rmf, cno, orph>>

(* SEARCH over flags: m, v mean "flags and m = v" *)
Search(j, r, m, v, uidonly) ==
    LET s == sess[j] IN
    /\ s.k = "search"
    /\ r \subseteq DOMAIN s.view
    /\ \A k \in DOMAIN s.view :
         LET fs == {hist[i].fl[s.view[k]] : i \in {i \in s.sync..Len(hist) : s.view[k] \in DOMAIN hist[i].fl}}
         IN s.view[k] \in Now.gone \/
            /\ (k \in r => \E f \in fs : (f & m) = v)
            /\ ((\A f \in fs : (f & m) = v) => k \in r)
    /\ Go(j, [s EXCEPT !.sd = TRUE])

UidNext(j, n) == /\ \A c \in DOMAIN uid : uid[c] < n
                 /\ maxn' = IF n > maxn THEN n ELSE maxn
                 /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, hist, sess, rel, dead, uv, life, base, rmf, cno, orph>>
UidVld(j, v) == /\ uv.dn # 0 => ((uv.dn = v) <=> ~uv.chg)
                /\ uv' = [uv EXCEPT !.dn = v, !.chg = FALSE]
                /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, sess, rel, dead, life, base, rmf, cno, orph>>

(* the client is in step with version S *)
InStep(s, S) ==
    /\ SelectSeq(s.view, LAMBDA c : c \notin S.gone) = Vis(S)
    /\ ~s.wh => Len(s.view) = Len(Vis(S))
    /\ \A k \in DOMAIN s.view : (s.view[k] \notin S.gone /\ s.kn[k] # -1) => s.kn[k] = S.fl[s.view[k]]

(* which relayed messages a command needs *)
Doomed(s) == {c \in Rng(s.view) : (Base(s).fl[c] & DELETED) # 0}
(* every version of the flags the session may have been acting on *)
Maybe(s, c, m) == \E i \in s.sync..Len(hist) : c \in DOMAIN hist[i].fl /\ (hist[i].fl[c] & m) # 0
Surely(s, c, m) == \A i \in s.sync..Len(hist) : c \in DOMAIN hist[i].fl /\ (hist[i].fl[c] & m) # 0
Live(c) == c \in DOMAIN box /\ box[c].st # "gone"
NeedLo(s) == CASE s.k \in {"store", "copy"} -> {c \in s.ts : Live(c)}
               [] s.k = "fetch" -> IF s.bod /\ s.np /\ ~s.ro
                                   THEN {c \in s.ts : Live(c) /\ \A i \in s.sync..Len(hist) : c \in DOMAIN hist[i].fl => (hist[i].fl[c] & SEEN) = 0}
                                   ELSE {}
               [] s.k \in {"expunge", "close"} -> {c \in Rng(s.view) : Live(c) /\ Surely(s, c, DELETED) /\ (~s.uo \/ c \in s.ts)}
               [] OTHER -> {}
NeedHi(s) == CASE s.k = "fetch" -> IF s.bod /\ s.np
                                   THEN {c \in s.ts : \E i \in s.sync..Len(hist) : c \in DOMAIN hist[i].fl => (hist[i].fl[c] & SEEN) = 0} ELSE {}
               [] s.k \in {"expunge", "close"} -> {c \in Rng(s.view) : Maybe(s, c, DELETED) /\ (~s.uo \/ c \in s.ts)}
               [] OTHER -> s.ts

(* the tagged answer *)
Tagged(j, st) ==
    LET s == sess[j]
        fin == [s EXCEPT !.k = "none", !.sync = VerOf(s), !.wh = FALSE, !.rs = "no", !.idle = FALSE,
                         !.ptr = IF st = "OK" /\ ~s.wh /\ s.k \notin {"sel", "exa"} THEN Base(s).n ELSE @]
        \* (with the server's refusal the client gets the news, too, of which there may be nothing to say)
        bad == [s EXCEPT !.k = "none", !.wh = FALSE, !.rs = "no", !.idle = FALSE,
                         !.ptr = IF s.k \in Relayable /\ s.rs = "no" /\ ~s.wh /\ InStep(s, Base(s)) THEN Base(s).n ELSE @,
                         !.kn = [x \in DOMAIN @ |-> IF s.view[x] \in s.ts THEN -1 ELSE @[x]]]
    IN
    /\ s.k # "none"
    /\ IF st = "OK" THEN
         /\ s.k \in {"sel", "exa"} =>
               /\ \A c \in DOMAIN base : c \in DOMAIN box /\ box[c].st # "unf"
               /\ Len(s.view) = Cardinality(VisSet(Now))
         /\ s.k \notin {"sel", "exa", "close", "logout"} /\ ~s.rec => InStep(s, Base(s))
         /\ s.k \in Relayable => (s.rs = "ok" \/ s.amb \/ (s.rs = "need" /\ (NeedLo(s) = {} \/ (s.ro /\ s.k # "copy"))))
         /\ s.k \in {"store", "expunge"} => ~s.ro
         /\ s.need \cap {c \in Rng(s.view) : TRUE} \subseteq {c \in s.need : s.k = "store" /\ c \in Base(s).gone}
         /\ s.k = "search" => s.sd
         /\ s.rec /\ s.k = "fetch" => 0 \notin Rng(s.view)
       ELSE s.k \in Relayable => s.rs # "ok" \/ s.amb \/ s.k = "fetch"
    /\ IF s.rec /\ s.k = "fetch" /\ st = "OK"
       THEN LET b == [c \in DOMAIN box |-> IF box[c].st = "lim" THEN [box[c] EXCEPT !.st = "fill", !.was = TRUE] ELSE box[c]]
            IN /\ ord' = s.view /\ box' = b
               /\ hist' = Append(hist, Shot(b, s.view))
               /\ life' = [life EXCEPT !.recov = FALSE]
               /\ Upd(j, [fin EXCEPT !.rec = FALSE, !.ptr = Len(s.view), !.sync = Len(hist) + 1])
       ELSE /\ Upd(j, IF st = "OK" THEN fin ELSE bad)
            /\ life' = IF s.k \in {"sel", "exa"} /\ st = "OK" THEN [life EXCEPT !.synced = TRUE] ELSE life
            /\ UNCHANGED <<ord, box, hist>>
    /\ UNCHANGED <<srv, n4m, uid, minuid, maxn, rel, dead, uv, base, rmf, cno, orph>>

(* a session leaves the mailbox *)
Left(j) == /\ sess' = [i \in DOMAIN sess \ {j} |-> sess[i]]
           (* what it asked for may still be relayed *)
           /\ orph' = IF sess[j].rs = "need" THEN orph \cup {sess[j]} ELSE orph
           /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, rel, dead, uv, life, base, rmf, cno>>
(* the citm ends a session: only if something happened to it *)
Cause(j) == /\ IF j \in DOMAIN sess THEN Upd(j, [sess[j] EXCEPT !.cause = TRUE]) ELSE UNCHANGED sess
            /\ OnlySess /\ UNCHANGED cno
(* (a CLOSE which the server refuses to carry out has no other answer) *)
Bye(j) == (sess[j].cause \/ (sess[j].k = "close" /\ (sess[j].rs = "no" \/ sess[j].amb))) /\ Left(j)

-----------------------------------------------------------------------------
(* what the citm asks of the server *)
Match(s, kinds, cs, sg, f) ==
    /\ s.rs = "need" /\ s.k \in kinds
    /\ cs \subseteq NeedHi(s) /\ NeedLo(s) \subseteq cs
    /\ ~s.ro \/ s.k = "copy"
    /\ (s.k = "store" => s.sg = sg /\ s.fm = f)
    /\ (s.k = "fetch" => sg = "+" /\ f = SEEN)
(* sent again, because the connection which carried it died without an answer *)
Again(kinds, u, t, cs, sg, f) ==
    /\ t \in DOMAIN rel
    /\ LET r == rel[t] IN /\ r.res = "none" /\ r.by \subseteq dead /\ u \notin dead
                          /\ r.cs = cs /\ r.sg = sg /\ r.f = f /\ r.kinds = kinds
(* (relay tags start over when the citm opens the mailbox again, which it may have
   done without a client seeing it; each new relay needs a session which asked for it) *)
Relay(kinds, u, t, cs, sg, f) ==
    IF ~Again(kinds, u, t, cs, sg, f)
    THEN LET W == {j \in DOMAIN sess : Match(sess[j], kinds, cs, sg, f)}
             O == {o \in orph : Match(o, kinds, cs, sg, f)}
             \* (where a session which left asked for the same, either verdict may be its own: amb)
             \* (the oldest; what a session left behind may never be sent at all)
             no == IF W # {} THEN Min({sess[j].no : j \in W}) ELSE Min({o.no : o \in O})
             r(j) == [j |-> j, cs |-> cs, sg |-> sg, f |-> f, by |-> {u}, res |-> "none", kinds |-> kinds]
         IN
         /\ W # {} \/ O # {}
         /\ IF \E j \in W : sess[j].no = no
            THEN LET j == CHOOSE j \in W : sess[j].no = no
                 IN Upd(j, [sess[j] EXCEPT !.rs = "sent", !.rt = t, !.amb = O # {}]) /\ rel' = Put(rel, t, r(j)) /\ UNCHANGED orph
            ELSE rel' = Put(rel, t, r(-1)) /\ orph' = {o \in orph : o.no # no} /\ UNCHANGED sess
         /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, dead, uv, life, base, rmf, cno>>
    ELSE /\ rel' = [rel EXCEPT ![t].by = @ \cup {u}]
         /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, sess, dead, uv, life, base, rmf, cno, orph>>
RelayStore(u, t, cs, sg, f) == Relay({"store", "fetch"}, u, t, cs, sg, f)
RelayExpunge(u, t, cs) == Relay({"expunge", "close"}, u, t, cs, "", 0)
RelayCopy(u, t, cs) == Relay({"copy"}, u, t, cs, "", 0)
(* deletions of its own accord: only of messages whose files the user deleted *)
OwnDelete(u, cs) == cs \subseteq rmf /\ UNCHANGED vars

Verdict(u, t, ok) ==
    /\ t \in DOMAIN rel
    /\ LET r == rel[t] IN
       /\ rel' = [rel EXCEPT ![t].res = IF @ = "none" THEN (IF ok THEN "ok" ELSE "no") ELSE @]
       /\ sess' = IF r.res = "none" /\ r.j \in DOMAIN sess /\ sess[r.j].rt = t
                  THEN Put(sess, r.j, [sess[r.j] EXCEPT !.rs = IF ok THEN "ok" ELSE "no", !.snap = Len(hist)]) ELSE sess
    /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, dead, uv, life, base, rmf, cno, orph>>

UpDead(u) == dead' = dead \cup {u} /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, sess, rel, uv, life, base, rmf, cno, orph>>

-----------------------------------------------------------------------------
(* the last session left; the user deletes files; the process dies *)
Shut == /\ \A j \in DOMAIN sess : sess[j].k \in {"sel", "exa"} /\ sess[j].view = <<>>   \* those will open it again
        /\ life' = [fresh |-> TRUE, recov |-> life.recov, synced |-> FALSE, open |-> FALSE]
        /\ rel' = Empty /\ orph' = {}   \* relay tags start over with the next opening
        /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, sess, dead, uv, base, rmf, cno>>
Remove(cs) == rmf' = rmf \cup cs /\ UNCHANGED <<srv, n4m, box, ord, uid, minuid, maxn, hist, sess, rel, dead, uv, life, base, cno, orph>>
(* lim: messages whose download or local copy was being recorded at that instant *)
Crash(lim) ==
    LET b == [c \in DOMAIN box |-> IF c \in lim /\ box[c].st = "fill" THEN [box[c] EXCEPT !.st = "lim"] ELSE box[c]]
        o == SelectSeq(ord, LAMBDA c : c \notin lim)
    IN /\ sess' = Empty /\ rel' = Empty /\ orph' = {}
       /\ box' = b /\ ord' = o /\ hist' = Append(hist, Shot(b, o))
       /\ life' = [fresh |-> TRUE, recov |-> TRUE, synced |-> FALSE, open |-> FALSE]
       /\ UNCHANGED <<srv, n4m, uid, minuid, maxn, dead, uv, base, rmf, cno>>

(* nothing is in flight any more *)
Quiet ==
    /\ \A j \in DOMAIN sess : sess[j].k \in {"none", "idle"}
    /\ \A j \in DOMAIN sess : sess[j].k = "idle" => InStep(sess[j], Now)
    /\ \A t \in DOMAIN rel : rel[t].res = "none" => rel[t].j \notin DOMAIN sess
    /\ life.open /\ ~life.recov /\ sess # Empty =>
         /\ \A c \in DOMAIN srv \ rmf : c \in DOMAIN box /\ box[c].st = (IF c \in n4m THEN "n4m" ELSE "fill")
                                  /\ (c \notin n4m => box[c].f = srv[c])
         /\ \A c \in DOMAIN box : box[c].st # "gone" => c \in DOMAIN srv
    /\ UNCHANGED vars
=============================================================================
