--------------------------------- MODULE Acme ---------------------------------
(* The certificate manager: configuration, account, order, challenge, key, certificate, renewal, retries, clean-up and
   the files that carry it all across restarts.  `s` is the manager (with its files s.f), `now` the clock.
   Adv(s, now) is what one call of am_advance_state does; a reply is folded in (On...) and followed by Adv. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS POLL, UNPREP, ACCBACK, CERTBACK      \* waiting times: configuration, clean-up, account retries, certificate retries
VARIABLES s, now
avars == <<s, now>>
\* major and minor status
NEEDCONF == 2   FIRST == 3   EXPIRED == 4   RENEW == 5   GOOD == 6
mNONE == 0 mACCT == 1 mRELOAD == 2 mORDER == 3 mAUTHZ == 4 mPREP == 5 mCHAL == 6 mKEY == 7 mFIN == 8 mRETRY == 9
NoCert == [n |-> 0, k |-> 0, d |-> 0, i |-> 0, e |-> 0, w |-> FALSE]
NoOrd == [n |-> 0, d |-> 0]
NoFiles == [key |-> 0, keynew |-> 0, cert |-> NoCert, certnew |-> NoCert, ord |-> NoOrd, acct |-> 0, jwk |-> 0, inst |-> 0]
NoNC == [e |-> "", ost |-> "", cst |-> "", key |-> 0, ord |-> 0, retry |-> 0, cert |-> NoCert,
         ks |-> FALSE, kd |-> FALSE, cos |-> FALSE, cod |-> FALSE, nos |-> FALSE, nod |-> FALSE, gas |-> FALSE, gar |-> FALSE,
         gad |-> FALSE, ps |-> FALSE, pd |-> FALSE, chs |-> FALSE, chd |-> FALSE, fs |-> FALSE, fd |-> FALSE]
Off == [up |-> FALSE, conf |-> FALSE, acc |-> FALSE, nas |-> FALSE, nad |-> FALSE, reloaded |-> FALSE, want |-> FALSE,
        active |-> FALSE, exp |-> 0, ren |-> 0, bo |-> 0, upa |-> 0, ups |-> FALSE, upd |-> FALSE, fails |-> 0,
        maj |-> 0, min |-> 0, err |-> "", cs |-> FALSE, ccb |-> FALSE, inst |-> 0, acctk |-> 0, nc |-> NoNC,
        req |-> "", api |-> "", kg |-> FALSE, serving |-> NoCert, nonce |-> <<0, 0>>, dirty |-> FALSE,
        njwk |-> 0, nkey |-> 0, dl |-> [c |-> -1, b |-> -1, u |-> -1], f |-> NoFiles, calls |-> <<>>, cbs |-> <<>>, halt |-> "", bt |-> FALSE, ov |-> FALSE]
Max(a, b) == IF a > b THEN a ELSE b
Rec(c, n, k, a) == [c |-> c, n |-> n, k |-> k, a |-> a]
Call(x, c, n, k, a) == [x EXCEPT !.calls = Append(@, Rec(c, n, k, a))]
Ask(x, r, c, n, k) == [Call(x, c, n, k, x.acctk) EXCEPT !.req = r, !.ov = @ \/ (x.req # "")]
CB(x, c, n, k, a) == [x EXCEPT !.cbs = Append(@, Rec(c, n, k, a))]
\* a callback may close the manager
Told(x) == IF x.ccb THEN [CB(x, "closed", 0, 0, 0) EXCEPT !.ccb = FALSE, !.err = IF @ = "" THEN "canceled" ELSE @] ELSE x
Backoff(x, t, d) == [Call(x, "dl_backoff", t + d, 0, 0) EXCEPT !.bo = t + d, !.dl.b = t + d]
DlCert(x, t) == [Call(x, "dl_cert", t, 0, 0) EXCEPT !.dl.c = t]
Nth(q, n) == IF n > Len(q) THEN q[Len(q)] ELSE q[n]
Ret(x) == [x EXCEPT !.halt = "ret"]
Renewal(c) == c.i + (2 * (c.e - c.i)) \div 3
\* a certificate that can be put to use, with that key
Usable(x, c, key, t) == (c.n > 0) /\ c.w /\ (key > 0) /\ (c.k = key) /\ (c.d = x.inst) /\ (t < c.e)
-------------------------------------------------------------------------------
(* one attempt at a new certificate; res: wait, ready, or the class of the failure *)
Conf(x, t) ==
    IF x.conf THEN x ELSE IF t < x.bo THEN Ret(x)
    ELSE IF x.f.inst \in {1, 2} THEN [x EXCEPT !.conf = TRUE, !.want = TRUE, !.maj = FIRST, !.min = mACCT, !.inst = x.f.inst]
    ELSE Ret(Backoff([x EXCEPT !.f.inst = 0], t, POLL))
Account(x, t) ==
    IF x.acc THEN x ELSE IF t < x.bo THEN Ret(x)
    ELSE LET j == IF x.f.jwk > 0 THEN x.f.jwk ELSE x.njwk + 1
             y == IF x.nas THEN x
                  ELSE [x EXCEPT !.nas = TRUE, !.f.jwk = j, !.njwk = Max(@, j), !.req = "new_account", !.calls = Append(@, Rec("new_account", x.inst, 0, j))]
         IN IF ~y.nad THEN Ret(y)
            ELSE [y EXCEPT !.acc = TRUE, !.reloaded = TRUE, !.f.acct = y.acctk, !.maj = FIRST, !.min = mORDER]
Expire(x, t) ==
    IF x.active /\ t >= x.exp
    THEN LET y == Told(CB([x EXCEPT !.active = FALSE, !.serving = NoCert], "update", 0, 0, 0))
             z == [y EXCEPT !.want = TRUE, !.maj = EXPIRED, !.min = IF x.want THEN @ ELSE IF x.reloaded THEN mORDER ELSE mRELOAD]
         IN IF z.err # "" THEN [z EXCEPT !.halt = "close"] ELSE z
    ELSE x
DueNow(x, t) ==
    IF ~x.want /\ (t >= x.ren)
    THEN [DlCert(x, x.exp) EXCEPT !.want = TRUE, !.maj = RENEW, !.min = IF x.reloaded THEN @ ELSE mRELOAD]
    ELSE x
\* --- steps of an attempt: each returns the state with res set as soon as it is known
Wait(x) == [x EXCEPT !.halt = "wait"]
Fail(x, e) == [x EXCEPT !.halt = e]
Then(x, y) == IF x.halt # "" THEN x ELSE y
Skip(x) == [x EXCEPT !.nc.nod = TRUE, !.nc.gad = TRUE, !.nc.pd = TRUE, !.nc.chd = TRUE]
N1(x) == IF x.nc.e # "" THEN Fail(x, x.nc.e)
         ELSE IF x.nc.ks THEN x ELSE [Call(x, "keygen", 0, 0, 0) EXCEPT !.nc.ks = TRUE, !.kg = TRUE, !.ov = @ \/ x.kg]
N2(x) ==
    IF x.reloaded THEN x
    ELSE LET y == IF x.nc.cos THEN x
                  ELSE LET z == [x EXCEPT !.nc.cos = TRUE, !.min = mRELOAD, !.nc.ost = "invalid"]
                       IN IF (x.f.ord.n > 0) /\ (x.f.ord.d = x.inst) THEN Ask([z EXCEPT !.nc.ord = x.f.ord.n], "get_order", "get_order", x.f.ord.n, 0)
                          ELSE [z EXCEPT !.nc.cod = TRUE]
             o == y.nc.ost
         IN IF ~y.nc.cod THEN Wait(y)
            ELSE IF o = "pending" THEN [y EXCEPT !.nc.nod = TRUE, !.reloaded = TRUE]
            ELSE IF o = "ready" THEN [Skip(y) EXCEPT !.reloaded = TRUE]
            ELSE IF (o \in {"processing", "valid"}) /\ ~y.nc.kd THEN Wait([y EXCEPT !.min = mKEY])
            ELSE IF o = "processing" THEN Ask([Skip(y) EXCEPT !.min = mFIN, !.nc.fs = TRUE, !.reloaded = TRUE], "finalize", "fin_proc", y.nc.ord, y.nc.retry)
            ELSE IF o = "valid" THEN Ask([Skip(y) EXCEPT !.min = mFIN, !.nc.fs = TRUE, !.reloaded = TRUE], "finvalid", "fin_valid", y.nc.ord, 0)
            ELSE [y EXCEPT !.reloaded = TRUE]
N3(x) == IF x.nc.nod THEN x ELSE IF x.nc.nos THEN Wait(x)
         ELSE Wait(Ask([x EXCEPT !.nc.nos = TRUE, !.min = mORDER], "new_order", "new_order", x.inst, 0))
N4(x) ==
    IF x.nc.gad THEN x
    ELSE LET y == IF x.nc.gas THEN x ELSE Ask([x EXCEPT !.nc.gas = TRUE, !.min = mAUTHZ], "get_authz", "get_authz", x.nc.ord, 0)
             c == y.nc.cst
         IN IF ~y.nc.gar THEN Wait(y)
            ELSE IF c = "pending" THEN [y EXCEPT !.nc.gad = TRUE]
            ELSE IF c = "processing" THEN Ask([y EXCEPT !.nc.gad = TRUE, !.nc.pd = TRUE, !.nc.chs = TRUE, !.min = mCHAL], "challenge", "challenge_finish", y.nc.ord, y.nc.retry)
            ELSE IF c = "valid" THEN [y EXCEPT !.nc.gad = TRUE, !.nc.pd = TRUE, !.nc.chd = TRUE]
            ELSE Fail(y, "resp")
N5(x) == IF x.nc.pd THEN x ELSE IF x.nc.ps THEN Wait(x)
         ELSE Wait([Call([x EXCEPT !.nc.ps = TRUE, !.min = mPREP, !.ups = FALSE, !.upd = FALSE, !.upa = 0, !.dirty = TRUE, !.api = "prepare", !.ov = @ \/ (x.api # ""), !.nonce[x.inst] = @ + 1],
                         "prepare", x.nc.ord, x.nonce[x.inst] + 1, x.inst) EXCEPT !.calls = @])
N6(x) == IF x.nc.chd THEN x ELSE IF x.nc.chs THEN Wait(x)
         ELSE Wait(Ask([x EXCEPT !.nc.chs = TRUE, !.min = mCHAL], "challenge", "challenge", x.nc.ord, x.nc.ord))
N7(x) == IF x.nc.kd THEN x ELSE Wait([x EXCEPT !.min = mKEY])
N8(x) == IF x.nc.fd THEN x ELSE IF x.nc.fs THEN Wait(x)
         ELSE Wait(Ask([x EXCEPT !.nc.fs = TRUE, !.min = mFIN], "finalize", "finalize", x.nc.ord, x.nc.key))
\* the certificate is put in place together with its key, or not at all
Install(x, f, c, t, restart) ==
    IF Usable(x, c, f.keynew, t) THEN [f EXCEPT !.key = f.keynew, !.keynew = 0, !.cert = c, !.certnew = NoCert]
    ELSE IF restart /\ Usable(x, c, f.key, t) THEN [f EXCEPT !.cert = c, !.certnew = NoCert]
    ELSE [f EXCEPT !.certnew = c]
N9(x, t) == LET c == x.nc.cert
                g == Install(x, x.f, c, t, FALSE)
                y == [x EXCEPT !.f = [g EXCEPT !.ord = NoOrd]]
            IN Fail(y, IF Usable(x, c, x.f.keynew, t) THEN "ready" ELSE "resp")
Attempt(x0, t) == LET x1 == N1(x0) x2 == Then(x1, N2(x1)) x3 == Then(x2, N3(x2)) x4 == Then(x3, N4(x3)) x5 == Then(x4, N5(x4))
                      x6 == Then(x5, N6(x5)) x7 == Then(x6, N7(x6)) x8 == Then(x7, N8(x7))
                  IN Then(x8, N9(x8, t))
\* an attempt is over; a key still being generated serves the next one
Forget(x) == [x EXCEPT !.nc = [NoNC EXCEPT !.ks = x.nc.ks /\ ~x.nc.kd]]
Unprepare(x, t) ==
    IF x.upd \/ (t < x.upa) \/ x.ups THEN x
    ELSE [Call([x EXCEPT !.ups = TRUE, !.api = "unprepare", !.ov = @ \/ (x.api # ""), !.nonce[x.inst] = @ + 1], "unprepare", 0, x.nonce[x.inst] + 1, x.inst) EXCEPT !.calls = @]
Want(x, t) ==
    IF ~x.want THEN x
    ELSE IF (x.ups /\ ~x.upd) \/ (t < x.bo) THEN Ret(x)
    ELSE LET y == Attempt(x, t) IN
         IF y.halt = "wait" THEN Ret(y)
         ELSE IF y.halt \in {"net", "resp"}
         THEN LET z == Forget([y EXCEPT !.fails = @ + 1, !.reloaded = FALSE, !.min = mRETRY]) IN Ret(Backoff(z, t, Nth(CERTBACK, z.fails)))
         ELSE IF y.halt = "fatal" THEN [Forget(y) EXCEPT !.halt = "fatal"]
         ELSE LET c == y.f.cert
                  z == Told(CB([Forget(y) EXCEPT !.want = FALSE, !.fails = 0, !.maj = GOOD, !.min = mNONE, !.active = TRUE, !.serving = c, !.halt = ""], "update", c.n, 1, 0))
                  u == [z EXCEPT !.exp = c.e, !.ren = Renewal(c)]
              IN IF z.err # "" THEN [z EXCEPT !.halt = "close"]
                 ELSE IF t >= u.ren THEN [u EXCEPT !.halt = "fatal"]      \* a "fresh" certificate that is due: documented as an internal error
                 ELSE DlCert(u, u.ren)
Stages(x0, t) == LET x1 == Conf(x0, t) x2 == Then(x1, Account(x1, t)) x3 == Then(x2, Expire(x2, t)) x4 == Then(x3, DueNow(x3, t))
                     x5 == Then(x4, Want(x4, t))
                 IN Then(x5, Unprepare(x5, t))
Shut(x) == IF x.cs THEN x ELSE [Call(x, "close", 0, 0, 0) EXCEPT !.cs = TRUE]
Adv(x0, t) ==
    IF x0.err # "" THEN Shut(x0)
    ELSE LET x == Stages([x0 EXCEPT !.halt = ""], t)
             y == [x EXCEPT !.halt = ""]
         IN IF x.halt \in {"fatal", "close"} THEN Shut([y EXCEPT !.err = IF @ = "" THEN "fatal" ELSE @])
            ELSE IF (x.maj # x0.maj) \/ (x.min # x0.min)
            THEN LET z == Told(CB(y, "status", y.maj, y.min, y.inst)) IN IF z.err # "" THEN Shut(z) ELSE z
            ELSE y
-------------------------------------------------------------------------------
(* starting up from the files *)
Fresh(x) == [Off EXCEPT !.up = TRUE, !.bt = TRUE, !.f = x.f, !.nonce = x.nonce, !.njwk = x.njwk, !.nkey = x.nkey, !.dirty = x.dirty]
St(x, maj, min) == [x EXCEPT !.maj = maj, !.min = min]
BootCert(x, t) ==
    LET rmin == IF x.f.ord.n # 0 THEN mRELOAD ELSE mORDER
        f == IF x.f.certnew.n # 0 THEN Install(x, x.f, x.f.certnew, t, TRUE) ELSE x.f
        y == [x EXCEPT !.f = f]
        c == f.cert
    IN IF (c.n = 0) \/ (f.key = 0) THEN [St(y, FIRST, rmin) EXCEPT !.want = TRUE]
       ELSE IF c.d # x.inst THEN [St(y, FIRST, rmin) EXCEPT !.want = TRUE, !.exp = c.e]
       ELSE LET z == [y EXCEPT !.exp = c.e, !.ren = Renewal(c)] IN
            IF t >= c.e THEN [St(z, EXPIRED, rmin) EXCEPT !.want = TRUE]
            ELSE LET u == [z EXCEPT !.active = TRUE, !.serving = c] IN
                 IF t >= z.ren THEN [St(DlCert(u, c.e), RENEW, rmin) EXCEPT !.want = TRUE]
                 ELSE St(DlCert(u, z.ren), GOOD, mNONE)
Boot(x0, t) ==
    LET x == Fresh(x0) IN
    IF x.f.inst \notin {1, 2} THEN St(Backoff([x EXCEPT !.f.inst = 0], t, POLL), NEEDCONF, mNONE)
    ELSE LET y == [x EXCEPT !.conf = TRUE, !.inst = x.f.inst] IN
         IF x.f.acct <= 0 THEN [St(y, FIRST, mACCT) EXCEPT !.want = TRUE, !.f.acct = 0]
         ELSE BootCert([y EXCEPT !.acc = TRUE, !.acctk = x.f.acct, !.f.jwk = 0], t)
-------------------------------------------------------------------------------
(* replies *)
Class(v) == IF v \in {"conn", "sock"} THEN "net" ELSE IF v = "resp" THEN "resp" ELSE "fatal"
IsErr(v) == v \in {"conn", "sock", "resp", "fatal", "cancel"}
NcErr(x, v) == [x EXCEPT !.nc.e = IF @ = "" THEN Class(v) ELSE @]
Fatal(x) == [x EXCEPT !.err = IF @ = "" THEN "fatal" ELSE @]
OnAccount(x, v, t) ==
    IF Class(v) = "net" /\ IsErr(v) THEN LET y == [x EXCEPT !.fails = @ + 1, !.nas = FALSE] IN Backoff(y, t, Nth(ACCBACK, y.fails))
    ELSE IF IsErr(v) THEN Fatal(x)
    ELSE [x EXCEPT !.fails = 0, !.nad = TRUE, !.acctk = x.f.jwk]
OnOrder(x, v, n) == IF IsErr(v) THEN NcErr(x, v) ELSE [x EXCEPT !.nc.ord = n, !.nc.nod = TRUE, !.f.ord = [n |-> n, d |-> x.inst]]
OnGetOrder(x, v) == LET y == [x EXCEPT !.nc.cod = TRUE] IN
    IF IsErr(v) \/ (v = "otherdom") THEN y ELSE [y EXCEPT !.nc.ost = v, !.nc.retry = IF v = "processing" THEN 7 ELSE 0]
OnAuthz(x, v) == IF IsErr(v) THEN NcErr(x, v) ELSE [x EXCEPT !.nc.gar = TRUE, !.nc.cst = v, !.nc.retry = IF v = "processing" THEN 9 ELSE 0]
OnChal(x, v) == IF IsErr(v) THEN NcErr(x, v) ELSE [x EXCEPT !.nc.chd = TRUE]
OnFin(x, v, c) == IF IsErr(v) THEN NcErr(x, v) ELSE [x EXCEPT !.nc.fd = TRUE, !.nc.cert = c]
OnPrepare(x, v) == IF v = "ok" THEN [x EXCEPT !.nc.pd = TRUE] ELSE IF v = "timeout" THEN [x EXCEPT !.nc.ps = FALSE]
                   ELSE IF IsErr(v) THEN NcErr(x, v) ELSE NcErr(x, "resp")
OnUnprepare(x, v, t) ==
    IF x.err # "" THEN x
    ELSE IF v = "ok" THEN [x EXCEPT !.upd = TRUE, !.dirty = FALSE]
    ELSE [Call(x, "dl_unprep", t + UNPREP, 0, 0) EXCEPT !.ups = FALSE, !.upa = t + UNPREP, !.dl.u = t + UNPREP]
OnKey(x, v) ==
    IF v # "ok" THEN Fatal(x)
    ELSE LET k == IF x.f.keynew > 0 THEN x.f.keynew ELSE x.nkey + 1
         IN [x EXCEPT !.f.keynew = k, !.nkey = Max(@, k), !.nc.kd = TRUE, !.nc.key = k]
Clean(x) == [x EXCEPT !.calls = <<>>, !.cbs = <<>>, !.bt = FALSE]
\* what an operation does, without the crash: e names it, v its variant, n an order number, c a certificate, t the time
Do(x0, e, v, n, c, t) ==
    LET x == Clean(x0) IN
    CASE e = "new_account" -> Adv(OnAccount([x EXCEPT !.req = ""], v, t), t)
      [] e = "new_order"   -> Adv(OnOrder([x EXCEPT !.req = ""], v, n), t)
      [] e = "get_order"   -> Adv(OnGetOrder([x EXCEPT !.req = ""], v), t)
      [] e = "get_authz"   -> Adv(OnAuthz([x EXCEPT !.req = ""], v), t)
      [] e = "challenge"   -> Adv(OnChal([x EXCEPT !.req = ""], v), t)
      [] e \in {"finalize", "finvalid"} -> Adv(OnFin([x EXCEPT !.req = ""], v, c), t)
      [] e = "prepare"     -> Adv(OnPrepare([x EXCEPT !.api = ""], v), t)
      [] e = "unprepare"   -> Adv(OnUnprepare([x EXCEPT !.api = ""], v, t), t)
      [] e = "keygen"      -> Adv(OnKey([x EXCEPT !.kg = FALSE], v), t)
      [] e = "tick"        -> LET Z(d) == IF d <= t THEN -1 ELSE d IN Adv([x EXCEPT !.dl = [c |-> Z(@.c), b |-> Z(@.b), u |-> Z(@.u)]], t)
      [] e = "step"        -> Adv(x, t)
      [] e = "check"       -> Adv(IF x.conf THEN x ELSE [x EXCEPT !.bo = 0], t)
      [] e = "inst"        -> [x EXCEPT !.f.inst = CASE v = "bad" -> -1 [] v = "other" -> 2 [] OTHER -> 1]
      [] e = "cc"          -> [x EXCEPT !.ccb = TRUE]
      [] e = "close"       -> Adv([x EXCEPT !.err = "canceled"], t)
      [] e = "x"           -> [CB(x, x.err, 0, 0, 0) EXCEPT !.up = FALSE, !.req = "", !.api = "", !.kg = FALSE, !.serving = NoCert, !.active = FALSE]
      [] OTHER -> x
Enabled(x, e) == CASE e \in {"new_account", "new_order", "get_order", "get_authz", "challenge", "finalize", "finvalid"} -> x.req = e
                   [] e \in {"prepare", "unprepare"} -> x.api = e
                   [] e = "keygen" -> x.kg
                   [] e = "x" -> x.cs
                   [] OTHER -> TRUE
-------------------------------------------------------------------------------
(* the property, on every state *)
Serves == (s.serving.n # 0) =>
             /\ s.up /\ s.serving.w /\ (s.serving.d = s.inst)
             /\ s.serving = s.f.cert /\ ((s.f.key = s.serving.k) \/ (s.f.certnew.k = s.f.key))
NotExpired == (s.serving.n # 0) /\ (s.err = "") => (now < s.exp) /\ (s.exp = s.serving.e)
\* what is on disk can be put back together
Together == (s.f.cert.n > 0) /\ (s.f.key > 0) =>
             \/ s.f.cert.k = s.f.key
             \/ (s.f.certnew.k = s.f.key) /\ s.f.certnew.w
NeverTorn == (s.f.cert.n # 0) => (s.f.cert.n > 0) /\ s.f.cert.w
\* the challenge is taken down before the manager rests
CleanedUp == s.up /\ s.acc /\ ~s.bt /\ (s.err = "") /\ s.dirty /\ ~s.want => (s.api = "unprepare") \/ (s.dl.u >= now)
\* never two requests of a kind at once
OneAtATime == ~s.ov
\* something is always coming
Awake == s.up /\ ~s.bt /\ (s.err = "") => (s.req # "") \/ (s.api # "") \/ s.kg \/ (s.dl.c >= now) \/ (s.dl.b >= now) \/ (s.dl.u >= now)
\* renewal is under way in good time
Renewing == s.up /\ ~s.bt /\ (s.err = "") /\ s.acc /\ (s.active => now >= s.ren) => s.want
===============================================================================
