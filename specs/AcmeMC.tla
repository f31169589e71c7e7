-------------------------------- MODULE AcmeMC --------------------------------
(* Every history of the certificate manager with at most NFAULT faults: failed or unhelpful replies, slow replies, a
   process that dies between any two file operations.  Replies come before time passes, unless slowness is the fault. *)
EXTENDS Acme, TLC
CONSTANTS LIFE, TMAX, NFAULT, NORD
VARIABLES faults, last, nord, ncert, okey
mvars == <<avars, faults, last, nord, ncert, okey>>
AccB == <<1, 2>>
CertB == <<1, 2>>
Init == /\ now = 0 /\ faults = 0 /\ last = 0 /\ nord = 0 /\ ncert = 0 /\ okey = [n \in 1..NORD |-> 0]
        /\ s = Boot([Off EXCEPT !.f.inst = 1], 0)
Keep == UNCHANGED <<faults, last>>
Fault == faults < NFAULT /\ faults' = faults + 1 /\ last' = now
\* replies: what a healthy server says, and what else can come
Good1(e) == CASE e = "get_order" -> {"pending", "ready", "processing", "valid", "invalid"}
             [] e = "get_authz" -> {"pending", "processing", "valid"}
             [] OTHER -> {"ok"}
Bad1(e) == CASE e = "new_account" -> {"conn"} [] e = "get_order" -> {"conn", "otherdom"} [] e = "get_authz" -> {"conn", "invalid"}
             [] e = "prepare" -> {"timeout", "conn"} [] e = "unprepare" -> {"conn"} [] e = "keygen" -> {} [] OTHER -> {"conn", "resp"}
IsFin(e) == e \in {"finalize", "finvalid"}
Ord == s.nc.ord
\* the key an order was finalised with is the key of its certificate, for ever
CertFor(e, n) == [n |-> ncert + 1, k |-> IF okey[n] # 0 THEN okey[n] ELSE s.nc.key, d |-> 1, i |-> now, e |-> now + LIFE, w |-> TRUE]
BadCert == [CertFor("finalize", 1) EXCEPT !.k = 99]
Note(x) == okey' = [n \in 1..NORD |-> IF \E i \in 1..Len(x.calls) : (x.calls[i].c = "finalize") /\ (x.calls[i].n = n) THEN x.nc.key ELSE okey[n]]
Out == {e \in {"new_account", "new_order", "get_order", "get_authz", "challenge", "finalize", "finvalid"} : s.req = e}
       \cup {e \in {"prepare", "unprepare"} : s.api = e} \cup (IF s.kg THEN {"keygen"} ELSE {})
Apply(x) == s' = x /\ UNCHANGED now /\ Note(x)
Reply(e, v, c) ==
    /\ e \in Out /\ (e = "new_order" /\ ~IsErr(v) => nord < NORD)
    /\ nord' = IF e = "new_order" /\ ~IsErr(v) THEN nord + 1 ELSE nord
    /\ ncert' = IF IsFin(e) /\ ~IsErr(v) THEN ncert + 1 ELSE ncert
    /\ Apply(Do(s, e, v, nord + 1, c, now))
ReplyGood == \E e \in Out : \E v \in Good1(e) : Reply(e, v, IF IsFin(e) THEN CertFor(e, Ord) ELSE NoCert) /\ Keep
ReplyBad == \E e \in Out : (\E v \in Bad1(e) : Reply(e, v, NoCert) /\ Fault) \/ (IsFin(e) /\ Reply(e, "ok", BadCert) /\ Fault)
\* the first wake-up after starting
Wake == s.up /\ s.bt /\ Apply(Do(s, "step", "", 0, NoCert, now)) /\ Keep /\ UNCHANGED <<nord, ncert>>
Calm == s.up /\ ~s.bt
Time == /\ now < TMAX /\ Calm /\ now' = now + 1
        /\ IF Out = {} THEN Keep ELSE Fault
        /\ s' = IF {s.dl.c, s.dl.b, s.dl.u} \cap {now + 1} # {} THEN Do(s, "tick", "", 0, NoCert, now + 1) ELSE Clean(s)
        /\ Note(s') /\ UNCHANGED <<nord, ncert>>
\* the files after each file operation of a reply
Files(e, v, c) ==
    LET x == Do(s, e, v, nord + 1, c, now)  f == s.f  h == x.f
        f1 == [f EXCEPT !.certnew = c]  f2 == [f1 EXCEPT !.key = f.keynew, !.keynew = 0]  f3 == [f2 EXCEPT !.cert = c, !.certnew = NoCert]
    IN {f, h} \cup (IF IsFin(e) /\ Usable(s, c, f.keynew, now) /\ s.nc.kd THEN {f1, f2, f3} ELSE {})
              \cup (IF IsFin(e) /\ ~Usable(s, c, f.keynew, now) THEN {f1} ELSE {})
              \cup (IF e = "keygen" THEN {[f EXCEPT !.keynew = IF @ > 0 THEN @ ELSE -1]} ELSE {})
              \cup (IF e = "new_order" THEN {[f EXCEPT !.ord = [n |-> -1, d |-> 0]]} ELSE {})
              \cup (IF e = "new_account" THEN {[f EXCEPT !.acct = -1]} ELSE {})
Crash == \E e \in Out : \E g \in Files(e, "ok", IF IsFin(e) THEN CertFor(e, Ord) ELSE NoCert) :
            /\ Fault /\ (e = "new_order" => nord < NORD)
            /\ nord' = IF e = "new_order" THEN nord + 1 ELSE nord
            /\ ncert' = IF IsFin(e) THEN ncert + 1 ELSE ncert
            /\ s' = Boot([Clean(s) EXCEPT !.f = g, !.dirty = @], now) /\ UNCHANGED <<now, okey>>
CrashIdle == Fault /\ s' = Boot(Clean(s), now) /\ UNCHANGED <<now, okey, nord, ncert>>
Next == Wake \/ (Calm /\ (ReplyGood \/ ReplyBad \/ Crash \/ CrashIdle)) \/ Time
MCSpec == Init /\ [][Next]_mvars
\* the names of fresh things do not matter for what can happen: drop the outputs
View == <<[s EXCEPT !.calls = <<>>, !.cbs = <<>>], now, faults, last, nord, ncert, okey>>
\* when nothing has gone wrong for as long as the longest waiting time, a certificate is being served and the challenge is gone
Recovered == (s.up /\ ~s.bt /\ (s.err = "") /\ (now - last > 4) /\ (Out = {})) => (s.serving.n # 0) /\ ~s.dirty
NoFatal == s.err = ""
BootWorks == s.active => (s.f.key = s.serving.k)
===============================================================================
