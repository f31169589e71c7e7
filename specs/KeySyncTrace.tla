----------------------------- MODULE KeySyncTrace -----------------------------
EXTENDS KeySync, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<svars, tr, pos>>
Ev == Traces[tr].ev[pos]
S(q) == {q[i] : i \in 1..Len(q)}
TraceInit == tr \in 1..Len(Traces) /\ pos = 1 /\ SInit(0..9)
Step ==
    \/ Ev.e = "xk" /\ Announce(Ev.k, Ev.l)
    \/ Ev.e = "cr" /\ (Created(Ev.k, Ev.f) \/ Ignored(Ev.k))
    \/ Ev.e = "de" /\ (Deleted(Ev.k, Ev.f) \/ Ignored(Ev.k))
    \/ Ev.e = "ok" /\ Ev.w = "sync" /\ SyncOk(Ev.k)
    \/ Ev.e = "ok" /\ Ev.w = "add" /\ Uploaded(Ev.k, Ev.ok)
    \/ Ev.e = "xa" /\ Upload(Ev.k, Ev.f)
    \/ Ev.e = "al" /\ (Alert(Ev.f) \/ AlertMine(Ev.f))
    \/ Ev.e = "serve" /\ Serve
    \/ Ev.e = "apc" /\ AppendSent(Ev.j)
    \/ Ev.e = "ap" /\ AppendArrives(Ev.j, Ev.r)
    \/ Ev.e = "xend" /\ End(Ev.k)
    \/ Ev.e = "restart" /\ Reboot
    \/ Ev.e = "quiet" /\ Quiet(S(Ev.a), Ev.live)
TraceNext ==
    \/ pos <= Len(Traces[tr].ev) /\ Step /\ pos' = pos + 1 /\ UNCHANGED tr
    \/ pos > Len(Traces[tr].ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
===============================================================================
