------------------------------- MODULE KeySync --------------------------------
(* The key synchronisation of one user: a connection of its own tells the server which keys this
   device knows, is told what to add and to forget, uploads this device's key if the server lost
   it, and only then are the user's sessions served.  Later changes arrive while it idles.      *)
EXTENDS Keydir
VARIABLES stage,   \* "none", "sync" (first synchronisation), "up" (uploading), "ready", "user", "dead"
          conn,    \* the connection it happens on
          need,    \* the server said it does not have this device's key
          owed,    \* alerts which the user must find in the INBOX
          hist     \* for each session: the key sets in use since its APPEND was sent
svars == <<kvars, stage, conn, need, owed, hist>>
NoConn == -1
SInit(fs) == KInit(0, fs) /\ stage = "none" /\ conn = NoConn /\ need = FALSE /\ owed = {} /\ hist = <<>>

Remember == hist' = [j \in DOMAIN hist |-> hist[j] \cup {keys' \cup {my}}]
Rest == UNCHANGED <<stage, conn, need, hist>>
Tell(l) == {f \in DOMAIN sent : sent'[f] > sent[f]}

(* the device lists exactly the keys it knows: on a new connection first, then on the same one for good *)
Announce(k, l) ==
    /\ {l[i] : i \in 1..Len(l)} = keys \cup {my} /\ Len(l) = Cardinality(keys \cup {my})
    /\ \/ stage \in {"none", "dead"} /\ stage' = "sync" /\ conn' = k /\ need' = FALSE
       \/ stage = "ready" /\ k = conn /\ stage' = "user" /\ UNCHANGED <<conn, need>>
    /\ UNCHANGED <<kvars, owed, hist>>
Created(k, f) ==
    /\ k = conn /\ stage \in {"sync", "user"}
    /\ f # my        \* this device's key only comes back by its own upload
    /\ Add(f) /\ owed' = owed \cup Tell(f) /\ Remember
    /\ UNCHANGED <<stage, conn, need>>
(* a user which lost its own key fails at once: what follows on that connection is not acted upon *)
Ignored(k) == k = conn /\ stage = "dead" /\ UNCHANGED svars
Deleted(k, f) ==
    /\ k = conn /\ stage \in {"sync", "user"}
    /\ IF f = my
       THEN /\ IF stage = "sync" THEN need' = TRUE /\ stage' = stage ELSE need' = need /\ stage' = "dead"
            /\ UNCHANGED <<kvars, hist>>
       ELSE Del(f, FALSE) /\ Remember /\ UNCHANGED <<stage, need>>
    /\ UNCHANGED <<conn, owed>>
(* the first synchronisation is complete *)
SyncOk(k) ==
    /\ k = conn /\ stage = "sync"
    /\ IF need THEN stage' = "up" /\ UNCHANGED kvars ELSE stage' = "ready" /\ XDone
    /\ UNCHANGED <<conn, need, owed, hist>>
Upload(k, f) == stage = "up" /\ k = conn /\ f = my /\ stage' = "upsent" /\ UNCHANGED <<kvars, conn, need, owed, hist>>
Uploaded(k, ok) ==
    /\ stage = "upsent" /\ k = conn
    /\ IF ok THEN stage' = "ready" /\ need' = FALSE /\ XDone ELSE stage' = "dead" /\ UNCHANGED <<need, kvars>>
    /\ UNCHANGED <<conn, owed, hist>>
(* mail for this device also names its own key, which may be the first time it is seen *)
AlertMine(f) ==
    /\ f = my /\ f \notin seen /\ f \notin owed
    /\ Do(<< <<"tell", f>>, <<"see", f>> >>, TRUE) /\ UNCHANGED <<my, keys, stage, conn, need, owed, hist>>
Alert(f) == f \in owed /\ owed' = owed \ {f} /\ UNCHANGED <<kvars, stage, conn, need, hist>>
(* no session is served before the keys are in order *)
Serve == stage \in {"ready", "user", "dead"} /\ ((stage = "dead") \/ ~need) /\ UNCHANGED svars
AppendSent(j) == hist' = [x \in DOMAIN hist \cup {j} |-> IF x = j THEN {keys \cup {my}} ELSE hist[x]] /\ UNCHANGED <<kvars, stage, conn, need, owed>>
(* the mail is readable by all of the account's devices, as of some moment since it was sent, and by nobody else *)
AppendArrives(j, r) ==
    /\ stage \in {"ready", "user", "dead"} /\ owed = {}
    /\ {r[i] : i \in 1..Len(r)} \in hist[j] /\ Len(r) = Cardinality({r[i] : i \in 1..Len(r)})
    /\ UNCHANGED svars
(* the connection ended: with it all of the user's sessions *)
End(k) == k = conn /\ stage' = "none" /\ conn' = NoConn /\ UNCHANGED <<kvars, need, owed, hist>>
Reboot == Restart /\ owed' = {} /\ stage' = "none" /\ conn' = NoConn /\ need' = FALSE /\ hist' = <<>>
(* at rest, with a session being served, the keys in use are the account's, and the account has ours *)
Quiet(a, live) ==
    /\ owed = {}
    /\ live => ((stage = "user") /\ (a = keys \cup {my}))
    /\ UNCHANGED svars
===============================================================================
