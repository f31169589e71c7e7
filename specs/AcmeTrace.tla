------------------------------ MODULE AcmeTrace ------------------------------
EXTENDS Acme, Json, TLC
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
AccB == <<1, 5, 15, 30, 45, 60>>
CertB == <<15, 30, 60, 300, 900, 1800>>
tvars == <<avars, tr, pos>>
Ev == Traces[tr].ev[pos]
TraceInit == tr \in 1..Len(Traces) /\ pos = 1 /\ now = 0 /\ s = [Off EXCEPT !.f.inst = 1]
\* nonces only have to grow
NonceOK(q) == \A i \in 1..Len(q) : (q[i].c \in {"prepare", "unprepare"}) => q[i].k > s.nonce[q[i].a]
Bare(q) == [i \in 1..Len(q) |-> IF q[i].c \in {"prepare", "unprepare"} THEN [q[i] EXCEPT !.k = 0] ELSE q[i]]
NonceOf(q, a) == LET S == {q[i].k : i \in {j \in 1..Len(q) : (q[j].c \in {"prepare", "unprepare"}) /\ (q[j].a = a)}} IN
                 IF S = {} THEN s.nonce[a] ELSE CHOOSE m \in S : \A k \in S : k <= m
MaxId(o, g) == Max(o, g)
Ids(x) == [x EXCEPT !.nonce = <<NonceOf(Ev.calls, 1), NonceOf(Ev.calls, 2)>>,
                    !.njwk = MaxId(@, Max(Ev.f.jwk, Ev.f.acct)), !.nkey = Max(@, IF Ev.f.keynew = 39 THEN 0 ELSE Ev.f.keynew)]
Same(x) == Bare(x.calls) = Bare(Ev.calls) /\ x.cbs = Ev.cbs /\ x.f = Ev.f /\ NonceOK(Ev.calls)
Plain == /\ Ev.m = "ok" /\ Ev.e \notin {"boot", "files"} /\ s.up /\ Enabled(s, Ev.e) /\ (Ev.now >= now)
         /\ LET x == Do(s, Ev.e, Ev.v, Ev.n, Ev.crt, Ev.now) IN Same(x) /\ s' = Ids(x)
\* the process ends in the middle of the operation: every file is as before, as after, or half written if it is not in use yet
Crashed ==
    /\ Ev.m \in {"crash", "done"} /\ s.up /\ Enabled(s, Ev.e) /\ (Ev.now >= now)
    /\ LET x == Do(s, Ev.e, Ev.v, Ev.n, Ev.crt, Ev.now)
           o == s.f  g == Ev.f  h == x.f
       IN /\ g.key \in {o.key, h.key} /\ g.cert \in {o.cert, h.cert}
          /\ (g.keynew \in {o.keynew, h.keynew, 0, -1} \/ ((g.keynew = s.nkey + 1) /\ (Ev.e = "keygen")))
          /\ (g.certnew \in {o.certnew, h.certnew, Ev.crt} \/ (g.certnew.n <= 0) \/ ~g.certnew.w)
          /\ (g.ord \in {o.ord, h.ord, [n |-> Ev.n, d |-> s.inst]} \/ (g.ord.n <= 0))
          /\ (g.acct \in {o.acct, h.acct, 0, -1}) /\ (g.jwk \in {o.jwk, h.jwk, 0, -1}) /\ (g.inst \in {o.inst, h.inst})
          /\ (Ev.m = "done") => (g = h)
          /\ s' = Ids([Clean(s) EXCEPT !.up = FALSE, !.f = g, !.serving = NoCert, !.active = FALSE, !.dirty = s.dirty \/ x.dirty])
Booted == /\ Ev.e = "boot" /\ Ev.v = "ok"
          /\ LET x == Boot(Clean(s), Ev.now) IN
             /\ Same(x) /\ (Ev.ctx = x.serving.n) /\ ((x.serving.n # 0) => Ev.chain = 1) /\ (Ev.maj = x.maj) /\ (Ev.min = x.min) /\ (Ev.dom = x.inst)
             /\ s' = Ids(x)
Changed == Ev.e = "files" /\ s' = [Clean(s) EXCEPT !.f = Ev.f, !.up = FALSE, !.serving = NoCert, !.active = FALSE]
TraceNext ==
    \/ pos <= Len(Traces[tr].ev) /\ (Plain \/ Crashed \/ Booted \/ Changed) /\ now' = Ev.now /\ pos' = pos + 1 /\ UNCHANGED tr
    \/ pos > Len(Traces[tr].ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===============================================================================
