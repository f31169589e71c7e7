-------------------------- MODULE DnsServerTrace --------------------------
EXTENDS DnsServer, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<dvars, tr, pos>>
Ev == Traces[tr].ev[pos]
First == Traces[tr].ev[1]
TraceInit == tr \in 1..Len(Traces) /\ pos = 1 /\ Init0(First.np, First.rid, First.now, First.nb > 0, First.nb > 60000)
Step ==
    \/ Ev.e = "init" /\ pos = 1 /\ UNCHANGED dvars
    \/ Ev.e = "adv" /\ Advance(Ev.now)
    \/ Ev.e = "q" /\ Query(Ev.px, Ev.q, Ev.r)
    \/ Ev.e = "up" /\ Update(Ev.p, Ev.u, Ev.acks)
    \/ Ev.e = "nothing" /\ Nothing
    \/ Ev.e = "wait" /\ Wait
    \/ Ev.e = "done" /\ Done(Ev.st)
    \/ Ev.e = "exit" /\ UNCHANGED dvars
    \/ Ev.e = "pool" /\ Pool(Ev.free, Ev.recv)
TraceNext ==
    \/ pos <= Len(Traces[tr].ev) /\ Step /\ pos' = pos + 1 /\ UNCHANGED tr
    \/ pos > Len(Traces[tr].ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===========================================================================
