------------------------------ MODULE DirmgrTrace ------------------------------
EXTENDS Dirmgr, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<dvars, tr, pos>>
Ev == Traces[tr].ev[pos]
S(q) == {q[i] : i \in 1..Len(q)}
NAMES == << <<"a">>, <<"a", "b">>, <<"c">>, <<"INBOX">>, <<"d e", "f">> >>
TraceInit == tr \in 1..Len(Traces) /\ pos = 1 /\ DInit
First(n, a) == a \in On(n) /\ \A b \in On(n) : a <= b
(* what can be seen afterwards *)
Probe ==
    /\ \A n \in Names : S(Ev.disk[n]) = Content(disk', P(n)) /\ Len(Ev.disk[n]) = Cardinality(S(Ev.disk[n]))
    /\ S(Ev.kick) = kicked' \ kicked
    /\ \A a \in Acc :
        LET n == acc'[a] on == (n # 0) /\ (a \notin kicked') IN
        /\ Ev.grp[a] = IF on THEN (CHOOSE b \in Acc : acc'[b] = n /\ b \notin kicked' /\ \A c \in Acc : (acc'[c] = n /\ c \notin kicked') => b <= c) - 1
                       ELSE 0 - 1
        /\ Ev.dl[a] = (on /\ ~(\E h \in Holds : hold'[h] = n))
        /\ Ev.mem[a] = IF on THEN Cardinality(Content(disk', P(n))) ELSE 0 - 1
        /\ (a \in kicked' \ kicked) => (Ev.woke[a] >= 1)
        (* who waits for a mailbox which does not exist is told *)
        /\ (on /\ isdn'[a] /\ n \in refused' \ refused) => (Ev.woke[a] >= 1)
Step ==
    \/ Ev.e = "open" /\ Open(Ev.i, Ev.n, Ev.dn, Ev.r) /\ Probe
    \/ Ev.e = "close" /\ Close(Ev.i) /\ Probe
    \/ Ev.e = "selno" /\ Refuse(Ev.i, Ev.r) /\ Probe
    \/ Ev.e = "hold" /\ Ev.r = "ok" /\ Hold(Ev.i, Ev.n) /\ Probe
    \/ Ev.e = "unhold" /\ Unhold(Ev.i) /\ Probe
       (* downloads resume: when nothing holds the mailbox any more, its synchronisation is woken up *)
       /\ LET n == hold[Ev.i] ups == {a \in On(n) : ~isdn[a]} IN
          ((ups # {}) /\ ~(\E h \in Holds : hold'[h] = n)) => \E a \in ups : Ev.woke[a] >= 1
    \/ Ev.e = "put" /\ Ev.r = "ok" /\ Put(Ev.i, Ev.t) /\ Probe
    \/ Ev.e = "freeze" /\ Freeze(Ev.i, Ev.n, Ev.r) /\ Probe
    \/ Ev.e = "thaw" /\ Thaw(Ev.i) /\ Probe
    \/ Ev.e = "delete" /\ Ev.r = "ok" /\ Delete(Ev.i) /\ Probe
    \/ Ev.e = "rename" /\ Ev.r = "ok" /\ Rename(Ev.i, Ev.n) /\ Probe
    \/ Ev.e = "restart" /\ Restart /\ Probe
    \/ Ev.e = "valid" /\ Ev.ok = NameOk(Ev.name) /\ UNCHANGED dvars
TraceNext ==
    \/ pos <= Len(Traces[tr].ev) /\ Step /\ pos' = pos + 1 /\ UNCHANGED tr
    \/ pos > Len(Traces[tr].ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===============================================================================
