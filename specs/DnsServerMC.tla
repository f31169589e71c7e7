--------------------------- MODULE DnsServerMC ---------------------------
(* the server with honest peers: each keeps a one-key table, opens sessions, reboots of
   the server are not modelled (K01/K02 do); strangers and two sources ask for the key *)
EXTENDS DnsServer
CONSTANTS MAXT, MAXU
VARIABLES tab,   \* [p -> value, 0 if none]: the peer's table
          ses,   \* [p -> [sync, upd, id, flushed]]
          said   \* the last answer given: [v |-> , by |-> ] or none
mvars == <<dvars, tab, ses, said>>
K == <<1>>
V(v) == <<v>>
P == 1..2
MCInit == Init0(2, <<7, 8>>, 1000, TRUE, TRUE) /\ tab = [p \in P |-> 0]
    /\ ses = [p \in P |-> [sync |-> 0, upd |-> 0, id |-> 0, fl |-> FALSE]] /\ said = "none"
U(ty, p, s, u, k, v, d, x) == [bad |-> FALSE, ty |-> ty, sync |-> s, upd |-> u, resync |-> 6 + p, exp |-> x, del |-> d, key |-> k, val |-> v]
Send(p, u) == (\E a \in {<<>>, <<[p |-> p, sync |-> u.sync, upd |-> u.upd]>>, <<[p |-> p, sync |-> rid[p], upd |-> 0]>>} : Update(p, u, a))
Exp(p) == IF ses[p].fl THEN {0, now + 1000} ELSE {0}
Start(p) == /\ ses[p].sync < 2 /\ Send(p, U("start", p, ses[p].sync + 1, 1, <<>>, <<>>, 0, 0))
            /\ ses' = [ses EXCEPT ![p] = [sync |-> @.sync + 1, upd |-> 1, id |-> 0, fl |-> FALSE]]
            /\ UNCHANGED <<tab, said>>
Fill(p) == /\ ses[p].sync > 0 /\ tab[p] # 0 /\ ses[p].id = 0 /\ ses[p].upd < MAXU
           /\ \E x \in Exp(p) : Send(p, U("insert", p, ses[p].sync, ses[p].upd + 1, K, V(tab[p]), 0, x))
           /\ ses' = [ses EXCEPT ![p].upd = @ + 1, ![p].id = ses[p].upd + 1] /\ UNCHANGED <<tab, said>>
FlushP(p) == /\ ses[p].sync > 0 /\ ~ses[p].fl /\ (tab[p] = 0 \/ ses[p].id # 0)
             /\ Send(p, U("flush", p, ses[p].sync, ses[p].upd + 1, <<>>, <<>>, 0, now + 1000))
             /\ ses' = [ses EXCEPT ![p].upd = @ + 1, ![p].fl = TRUE] /\ UNCHANGED <<tab, said>>
Set(p) == ses[p].upd < MAXU /\ tab[p] = 0 /\ (ses[p].sync > 0 => ses[p].id = 0) /\ tab' = [tab EXCEPT ![p] = p] /\ UNCHANGED <<dvars, ses, said>>
Unset(p) == /\ tab[p] # 0 /\ ses[p].id # 0 /\ ses[p].upd < MAXU
            /\ Send(p, U("delete", p, ses[p].sync, ses[p].upd + 1, K, <<>>, ses[p].id, 0))
            /\ tab' = [tab EXCEPT ![p] = 0] /\ ses' = [ses EXCEPT ![p].upd = @ + 1, ![p].id = 0] /\ UNCHANGED said
Ask(px) == /\ ~closed /\ Recving
           /\ \/ ~MustDrop(px) /\ Count(px) /\ out' = out + 1 /\ (\E a \in Verdicts(K) : said' = a.k)
              \/ MayDrop(px) /\ UNCHANGED <<acc, out>> /\ said' = "none"
           /\ UNCHANGED <<np, rid, rep, now, closed, limit, wide, tab, ses>>
MCNext ==
    \/ \E p \in P : Start(p) \/ Fill(p) \/ FlushP(p) \/ Set(p) \/ Unset(p)
    \/ Ask(1)
    \/ (out > 0 /\ Done("ok") /\ UNCHANGED <<tab, ses, said>>)
    \/ (now < MAXT /\ Advance(now + 1000) /\ said' = "none" /\ UNCHANGED <<tab, ses>>)
MCSpec == MCInit /\ [][MCNext]_mvars
\* a replica in step with its peer says what the peer's table says, and never denies what is there
InStep(p) == ses[p].fl /\ (tab[p] = 0 \/ ses[p].id # 0)
Faithful == \A p \in P : InStep(p) => IF tab[p] # 0 THEN Says(rep[p], K) = [k |-> "yes", v |-> V(tab[p])]
                                      ELSE Says(rep[p], K).k # "yes"
NoDenial == [][said' = "no" /\ said # "no" => ~\E p \in P : InStep(p) /\ tab[p] # 0]_mvars
=============================================================================
