------------------------------- MODULE DirmgrMC -------------------------------
EXTENDS Dirmgr
CONSTANT NTOK
NAMES == << <<"a">>, <<"a", "b">>, <<"c">> >>
VARIABLES nt, gone   \* tokens made; tokens which the user deleted (or overwrote), or whose mailbox the server does not have
MCInit == DInit /\ nt = 0 /\ gone = {}
T(d) == {x[2] : x \in d}
(* what a step may lose *)
Keeps(n) == gone' = gone \cup IF n \in refused THEN Content(disk, P(n)) ELSE {}
MCNext ==
    \/ \E a \in Acc, n \in Names  , r \in {"ok", "frozen"} : Open(a, n, a = 1, r) /\ UNCHANGED <<nt, gone>>
    \/ \E a \in Acc : acc[a] # 0 /\ Close(a) /\ Keeps(acc[a]) /\ UNCHANGED nt
    \/ \E a \in Acc, r \in {"ok", "err"} : acc[a] # 0 /\ Refuse(a, r) /\ Keeps(acc[a]) /\ UNCHANGED nt
    \/ \E h \in Holds, n \in Names : Hold(h, n) /\ UNCHANGED <<nt, gone>>
    \/ \E h \in Holds : Unhold(h) /\ UNCHANGED <<nt, gone>>
    \/ \E h \in Holds : nt < NTOK /\ Put(h, nt + 1) /\ nt' = nt + 1 /\ UNCHANGED gone
    \/ \E z \in Frzs, n \in Names, r \in {"ok", "busy"} : Freeze(z, n, r) /\ Keeps(n) /\ UNCHANGED nt
    \/ \E z \in Frzs : Thaw(z) /\ UNCHANGED <<nt, gone>>
    \/ \E z \in Frzs : Delete(z) /\ gone' = gone \cup T({x \in disk : Under(x[1], P(frz[z]))}) /\ UNCHANGED nt
    \/ \E z, y \in Frzs : Rename(z, y) /\ gone' = gone \cup T({x \in disk : Under(x[1], P(frz[y]))}) /\ UNCHANGED nt
MCSpec == MCInit /\ [][MCNext]_<<dvars, nt, gone>>
Small == \A x \in disk : Len(x[1]) <= 3
(* every message is in exactly one place, or was deleted *)
Nothing == \A t \in 1..nt : (t \notin gone) => Cardinality({x \in disk : x[2] = t}) = 1
===============================================================================
