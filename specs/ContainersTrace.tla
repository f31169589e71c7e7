--------------------------- MODULE ContainersTrace ---------------------------
EXTENDS Containers, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
Ev == Traces[tr].ev[pos]
TraceInit == tr \in 1..Len(Traces) /\ pos = 1 /\ Fresh(0)
Step ==
    \/ Ev.e = "new" /\ Reset(Ev.max)
    \/ Ev.e = "ms" /\ MapSet(Ev.k, Ev.x, Ev.r)
    \/ Ev.e = "mu" /\ MapUniq(Ev.k, Ev.x, Ev.r = 1)
    \/ Ev.e = "mg" /\ MapGet(Ev.k, Ev.r)
    \/ Ev.e = "md" /\ MapDel(Ev.k, Ev.r)
    \/ Ev.e = "mr" /\ MapRemove({Ev.x})
    \/ Ev.e = "mi" /\ MapIter(Ev.got, Rng(Ev.rm))
    \/ Ev.e = "mp" /\ MapPop(Ev.n, Ev.got)
    \/ Ev.e = "mbusy" /\ InMap(Ev.x) /\ UNCHANGED vars
    \/ Ev.e = "ti" /\ TreeInsert(Ev.k, Ev.n)
    \/ Ev.e = "te" /\ TreeErase(Ev.k, Ev.r, Ev.n)
    \/ Ev.e = "tf" /\ TreeFind(Ev.k, Ev.r, Ev.i)
    \/ Ev.e = "tp" /\ TreePop(Ev.r)
    \/ Ev.e = "tn" /\ TreeIndex(Ev.i, Ev.r)
    \/ Ev.e = "tt" /\ TreeWalk(Ev.from, Ev.mv, Ev.got, Ev.n)
    \/ Ev.e = "hp" /\ HeapPut(Ev.x, Ev.p)
    \/ Ev.e = "hk" /\ HeapPeek(Ev.r)
    \/ Ev.e = "ho" /\ HeapPop(Ev.r)
    \/ Ev.e = "hr" /\ HeapRemove(Ev.x)
    \/ Ev.e = "hbusy" /\ Ev.x \in DOMAIN heap /\ UNCHANGED vars
    \/ Ev.e = "la" /\ ListAppend(Ev.l, Ev.x)
    \/ Ev.e = "lp" /\ ListPrepend(Ev.l, Ev.x)
    \/ Ev.e = "lA" /\ ListAppendList(Ev.l, Ev.d)
    \/ Ev.e = "lP" /\ ListPrependList(Ev.l, Ev.d)
    \/ Ev.e = "lf" /\ ListPopFirst(Ev.l, Ev.r)
    \/ Ev.e = "ll" /\ ListPopLast(Ev.l, Ev.r)
    \/ Ev.e = "lr" /\ ListRemove(Ev.x)
    \/ Ev.e = "lc" /\ ListCount(Ev.l, Ev.r, Ev.empty)
    \/ Ev.e = "li" /\ ListIter(Ev.l, Ev.got, Rng(Ev.rm))
    \/ Ev.e = "ln" /\ ListPopN(Ev.ls, Ev.last = 1, Ev.ok, Ev.got)
    \/ Ev.e = "lbusy" /\ InList(Ev.x) /\ UNCHANGED vars
TraceNext ==
    \/ pos <= Len(Traces[tr].ev) /\ Step /\ pos' = pos + 1 /\ UNCHANGED tr
    \/ pos > Len(Traces[tr].ev) /\ UNCHANGED <<vars, tr, pos>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, pos>>
==============================================================================
