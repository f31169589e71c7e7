--------------------------- MODULE ImaildirTrace ---------------------------
(* judges recorded behaviour of the citm: one line of traces.ndjson per mailbox history *)
EXTENDS Imaildir, Json
VARIABLES tr, pos
Traces == ndJsonDeserialize("traces.ndjson")
Ev == Traces[tr].ev[pos]
Set(s) == {s[i] : i \in DOMAIN s}
Has(k) == k \in DOMAIN Ev
Opt(k, d) == IF k \in DOMAIN Ev THEN Ev[k] ELSE d

Step ==
    CASE Ev.e = "new"   -> SrvNew(Ev.c, Ev.f, Ev.n4m = 1)
      [] Ev.e = "sfl"   -> SrvFlags(Ev.c, Ev.f)
      [] Ev.e = "sgone" -> SrvGone(Ev.c)
      [] Ev.e = "ssel"  -> SrvSelect
      [] Ev.e = "rxm"   -> RxMeta(Ev.c, Ev.f)
      [] Ev.e = "rxb"   -> RxBody(Ev.c, Ev.f, Ev.n4m = 1)
      [] Ev.e = "rxg"   -> RxGone(Set(Ev.cs))
      [] Ev.e = "lf"    -> LocalFill(Ev.c, Ev.f)
      [] Ev.e = "rxv"   -> RxVld(Ev.v)
      [] Ev.e = "cmd"   -> Cmd(Ev.j, Ev.k, Opt("uid", 0) = 1, Set(Opt("ks", <<>>)), Opt("sg", ""), Opt("f", 0), Opt("sil", 0) = 1,
                               Opt("bod", 0) = 1, Opt("np", 0) = 1)
      [] Ev.e = "exi"   -> Exists(Ev.j, Ev.n)
      [] Ev.e = "exp"   -> Expunge(Ev.j, Ev.k)
      [] Ev.e = "fet"   -> Ev.k \in DOMAIN sess[Ev.j].view /\ Fetch(Ev.j, Ev.k, Opt("uid", 0), Opt("f", -1), Opt("c", -1))
      [] Ev.e = "sea"   -> Search(Ev.j, Set(Ev.r), Ev.m, Ev.v, FALSE)
      [] Ev.e = "uidn"  -> UidNext(Ev.j, Ev.n)
      [] Ev.e = "uidv"  -> UidVld(Ev.j, Ev.v)
      [] Ev.e = "tag"   -> Tagged(Ev.j, Ev.st)
      [] Ev.e = "left"  -> Left(Ev.j)
      [] Ev.e = "cause" -> Cause(Ev.j)
      [] Ev.e = "bye"   -> Bye(Ev.j)
      [] Ev.e = "txs"   -> RelayStore(Ev.u, Ev.t, Set(Ev.cs), Ev.sg, Ev.f)
      [] Ev.e = "txx"   -> RelayExpunge(Ev.u, Ev.t, Set(Ev.cs))
      [] Ev.e = "txc"   -> RelayCopy(Ev.u, Ev.t, Set(Ev.cs))
      [] Ev.e \in {"txd", "txy"} -> OwnDelete(Ev.u, Set(Ev.cs))
      [] Ev.e = "ver"   -> Verdict(Ev.u, Ev.t, Ev.ok = 1)
      [] Ev.e = "udead" -> UpDead(Ev.u)
      [] Ev.e = "shut"  -> Shut
      [] Ev.e = "rmf"   -> Remove(Set(Ev.cs))
      [] Ev.e = "crash" -> Crash(Set(Ev.cs))
      [] Ev.e = "quiet" -> Quiet
      [] Ev.e \in {"utx", "rsel"} -> UNCHANGED vars
TraceInit == Init /\ tr \in 1..Len(Traces) /\ pos = 1
TraceNext == \/ /\ pos <= Len(Traces[tr].ev) /\ Step /\ pos' = pos + 1 /\ tr' = tr
             \/ /\ pos > Len(Traces[tr].ev) /\ UNCHANGED <<vars, tr, pos>>
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, tr, pos>>
=============================================================================
