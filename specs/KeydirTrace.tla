------------------------------ MODULE KeydirTrace ------------------------------
EXTENDS Keydir, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<kvars, tr, pos>>
Ev == Traces[tr].ev[pos]
S(q) == {q[i] : i \in 1..Len(q)}
NoDup(q) == Cardinality(S(q)) = Len(q)
TraceInit == tr \in 1..Len(Traces) /\ pos = 1 /\ KInit(10, 1..20)
(* recipient 0 of a message is this device *)
R == [i \in 1..Len(Ev.r) |-> IF Ev.r[i] = 0 THEN my ELSE Ev.r[i]]
Mine == \E i \in 1..Len(Ev.r) : Ev.r[i] = 0
(* what a message becomes for this user *)
Shown == CASE Ev.how = "clear" -> "marked" [] (Ev.how = "enc") /\ Mine -> "plain" [] ~Mine -> "n4m" [] OTHER -> "corrupt"
DS == IF (Ev.how = "enc") /\ Mine THEN DecSteps(R, Ev.a) ELSE <<>>
Steps == CASE Ev.e = "dec" -> DS [] Ev.e = "add" -> AddSteps(Ev.a) [] Ev.e = "del" -> DelSteps(Ev.a)
           [] Ev.e = "synced" -> SyncSteps(Ev.a) [] Ev.e = "x" -> XSteps [] OTHER -> <<>>
Due == CASE Ev.e = "dec" -> Ev.a \in synced [] Ev.e = "add" -> xdone [] OTHER -> FALSE
Done ==
    \/ Ev.e = "dec" /\ Do(DS, Due) /\ UNCHANGED <<my, keys>> /\ (Ev.out \in {Shown, "none"})
    \/ Ev.e = "add" /\ Add(Ev.a)
    \/ Ev.e = "del" /\ Del(Ev.a, FALSE)
    \/ Ev.e = "synced" /\ Synced(Ev.a)
    \/ Ev.e = "x" /\ XDone
    \/ Ev.e = "restart" /\ Restart
    \/ Ev.e = "spoil" /\ NewKey(Ev.my)
(* Ev.m: ok: ran to its end; done: the same, then the process ended; fail: a system call failed; crash *)
Step ==
    \/ Ev.m = "ok" /\ Ev.ok /\ Done
    \/ Ev.m = "done" /\ Ev.ok /\ Done
    \/ Ev.m = "fail" /\ Ev.ok /\ (Done \/ (Ev.e = "del" /\ Del(Ev.a, TRUE)))
    \/ Ev.m = "fail" /\ ~Ev.ok /\ Ev.e # "restart" /\ Failed(Steps, Due)
    \/ Ev.m = "fail" /\ ~Ev.ok /\ Ev.e = "restart" /\ Restart
    \/ Ev.m = "crash" /\ Ev.e # "spoil" /\ Crashed(Steps, Due)
    \/ Ev.m = "crash" /\ Ev.e = "spoil" /\ NewKey(Ev.my)
(* what is seen from outside after the operation *)
Seen ==
    /\ \A f \in DOMAIN sent : sent'[f] - sent[f] = Len(SelectSeq(Ev.al, LAMBDA x : x = f))
    /\ S(Ev.al) \subseteq DOMAIN sent
    /\ Ev.my = my'
    /\ NoDup(Ev.peers) /\ S(Ev.peers) = keys'
    /\ NoDup(Ev.all) /\ S(Ev.all) = keys' \cup {my'}
    /\ S(Ev.files) = files'
    /\ S(Ev.synced) = synced'
    /\ Ev.x = xdone'
    /\ S(Ev.seen) = seen'
TraceNext ==
    \/ pos <= Len(Traces[tr].ev) /\ Step /\ Seen /\ pos' = pos + 1 /\ UNCHANGED tr
    \/ pos > Len(Traces[tr].ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===============================================================================
