---------------------------- MODULE KvpSendTrace ----------------------------
EXTENDS KvpSend, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<vars, tr, pos>>
Ev == Traces[tr].ev[pos]
TraceInit == tr \in 1..Len(Traces) /\ pos = 1 /\ Init0(Traces[tr].ev[1].now)
Step ==
    \/ Ev.e = "start" /\ UNCHANGED vars
    \/ Ev.e = "db" /\ DbSet(Ev.n, Ev.c)
    \/ Ev.e = "begin" /\ Begin(Ev.k, Ev.i, Ev.n, Ev.c)
    \/ Ev.e = "ack" /\ Ack(Ev.p, Ev.n, Ev.c)
    \/ Ev.e = "rs" /\ Resync(Ev.p)
    \/ Ev.e = "st" /\ State(Ev.p, Ev.ok)
    \/ Ev.e = "k" /\ TellReady(Ev.i)
    \/ Ev.e = "x" /\ Close(Ev.i)
    \/ Ev.e = "t" /\ TellTimeout(Ev.i)
    \/ Ev.e = "end" /\ End
    \/ Ev.e = "adv" /\ Advance(Ev.now)
    \/ Ev.e = "hc" /\ {Ev.h[j] : j \in 1..Len(Ev.h)} = ok /\ UNCHANGED vars
    \/ Ev.e = "q" /\ Ev.r = db[Ev.n] /\ ent[Ev.n].c = db[Ev.n] /\ Ev.p \in ok /\ UNCHANGED vars
TraceNext ==
    \/ pos <= Len(Traces[tr].ev) /\ Step /\ pos' = pos + 1 /\ UNCHANGED tr
    \/ pos > Len(Traces[tr].ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
