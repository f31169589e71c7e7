-------------------------------- MODULE Dirmgr --------------------------------
(* Who may have which mailbox open, and what is in the mailboxes: sessions and synchronisations
   (accessors) open and close mailboxes, appends hold them and put messages into them, DELETE and
   RENAME freeze them.  A message is a token; a mailbox is a path of components.              *)
EXTENDS Naturals, Sequences, FiniteSets
CONSTANTS Acc, Holds, Frzs, NamesL      \* NamesL: the paths, as a sequence of sequences of strings
VARIABLES acc,      \* accessor -> 0 or the index of the mailbox it has open
          isdn,     \* accessor -> is it a session (waiting for its view), not a synchronisation
          kicked,   \* accessors whose mailbox was taken away, and which have not left yet
          refused,  \* open mailboxes which the server says do not exist: emptied when closed
          hold,     \* hold -> 0 or mailbox
          frz,      \* freeze -> 0 or mailbox
          disk      \* set of <<path, token>>
dvars == <<acc, isdn, kicked, refused, hold, frz, disk>>
Names == 1..Len(NamesL)
P(n) == NamesL[n]
DInit == /\ acc = [a \in Acc |-> 0] /\ isdn = [a \in Acc |-> FALSE] /\ kicked = {} /\ refused = {}
         /\ hold = [h \in Holds |-> 0] /\ frz = [z \in Frzs |-> 0] /\ disk = {}
On(n) == {a \in Acc : acc[a] = n /\ a \notin kicked}
Frozen(n) == \E z \in Frzs : frz[z] = n
Held(n) == \E h \in Holds : hold[h] = n
Content(d, p) == {x[2] : x \in {y \in d : y[1] = p}}
Under(q, p) == Len(q) >= Len(p) /\ SubSeq(q, 1, Len(p)) = p
Inferior(n) == {m \in Names : m # n /\ Under(P(m), P(n))}
(* when nobody has it open any more *)
Ended(n) == IF n \in refused THEN disk' = {x \in disk : x[1] # P(n)} ELSE disk' = disk

Open(a, n, dn, r) ==
    /\ acc[a] = 0
    /\ IF Frozen(n) THEN r = "frozen" /\ UNCHANGED <<acc, isdn>>
       ELSE r = "ok" /\ acc' = [acc EXCEPT ![a] = n] /\ isdn' = [isdn EXCEPT ![a] = dn]
    /\ UNCHANGED <<kicked, refused, hold, frz, disk>>
Close(a) ==
    /\ acc[a] # 0 /\ acc' = [acc EXCEPT ![a] = 0]
    /\ kicked' = kicked \ {a}
    /\ IF a \notin kicked /\ On(acc[a]) = {a} THEN Ended(acc[a]) /\ refused' = refused \ {acc[a]} ELSE UNCHANGED <<disk, refused>>
    /\ UNCHANGED <<isdn, hold, frz>>
(* the server refuses to select it; a second time is an error which takes everyone's mailbox away *)
Refuse(a, r) ==
    /\ acc[a] # 0 /\ a \notin kicked
    /\ LET n == acc[a] IN
       IF n \in refused THEN r = "err" /\ kicked' = kicked \cup On(n) /\ refused' = refused \ {n} /\ Ended(n)
       ELSE r = "ok" /\ refused' = refused \cup {n} /\ UNCHANGED <<kicked, disk>>
    /\ UNCHANGED <<acc, isdn, hold, frz>>
Hold(h, n) == hold[h] = 0 /\ hold' = [hold EXCEPT ![h] = n] /\ UNCHANGED <<acc, isdn, kicked, refused, frz, disk>>
Unhold(h) == hold[h] # 0 /\ hold' = [hold EXCEPT ![h] = 0] /\ UNCHANGED <<acc, isdn, kicked, refused, frz, disk>>
Put(h, t) == hold[h] # 0 /\ disk' = disk \cup {<<P(hold[h]), t>>} /\ UNCHANGED <<acc, isdn, kicked, refused, hold, frz>>
Freeze(z, n, r) ==
    /\ frz[z] = 0
    /\ IF Frozen(n) THEN r = "busy" /\ UNCHANGED <<kicked, refused, frz, disk>>
       ELSE r = "ok" /\ frz' = [frz EXCEPT ![z] = n] /\ kicked' = kicked \cup On(n) /\ Ended(n) /\ refused' = refused \ {n}
    /\ UNCHANGED <<acc, isdn, hold>>
Thaw(z) == frz[z] # 0 /\ frz' = [frz EXCEPT ![z] = 0] /\ UNCHANGED <<acc, isdn, kicked, refused, hold, disk>>
Quiet(n) == \A m \in Inferior(n) : On(m) = {}
Delete(z) ==
    /\ frz[z] # 0 /\ Quiet(frz[z])
    /\ disk' = {x \in disk : ~Under(x[1], P(frz[z]))}
    /\ UNCHANGED <<acc, isdn, kicked, refused, hold, frz>>
CanRename(s, d) == s # d /\ ~Under(P(s), P(d)) /\ ~Under(P(d), P(s)) /\ Quiet(s) /\ Quiet(d)
Rename(z, y) ==
    /\ frz[z] # 0 /\ frz[y] # 0 /\ CanRename(frz[z], frz[y])
    /\ LET s == P(frz[z]) d == P(frz[y]) IN
       disk' = {x \in disk : ~Under(x[1], s) /\ ~Under(x[1], d)} \cup
               {<<d \o SubSeq(x[1], Len(s) + 1, Len(x[1])), x[2]>> : x \in {y2 \in disk : Under(y2[1], s)}}
    /\ UNCHANGED <<acc, isdn, kicked, refused, hold, frz>>
(* a restart loses nothing *)
Idle == (\A a \in Acc : acc[a] = 0) /\ (\A h \in Holds : hold[h] = 0) /\ (\A z \in Frzs : frz[z] = 0)
Restart == Idle /\ UNCHANGED dvars
(* properties *)
FrozenIsClosed == \A n \in Names : Frozen(n) => On(n) = {}
OneFreeze == \A y, z \in Frzs : (y # z /\ frz[y] # 0) => frz[y] # frz[z]
RefusedIsOpen == \A n \in refused : On(n) # {}
KickedHad == \A a \in kicked : acc[a] # 0
(* which names can be mailboxes: nothing that leads out of the mail directory, or to the files and
   directories which the mailboxes themselves are made of *)
Starts(b) == {1} \cup {i + 1 : i \in {j \in 1..Len(b) : b[j] = 47}}
End(b, s) == (CHOOSE e \in s..Len(b) + 1 : (e = Len(b) + 1 \/ b[e] = 47) /\ \A x \in s..e - 1 : b[x] # 47) - 1
Reserved == {<<46>>, <<46, 46>>, <<99, 117, 114>>, <<116, 109, 112>>, <<110, 101, 119>>,
             <<46, 99, 97, 99, 104, 101>>, <<46, 99, 97, 99, 104, 101, 46, 116, 109, 112>>, <<46, 105, 110, 118, 97, 108, 105, 100>>}
NameOk(b) == /\ \A i \in 1..Len(b) : b[i] # 0
             /\ \A s \in Starts(b) : LET c == SubSeq(b, s, End(b, s)) IN Len(c) \in 1..255 /\ c \notin Reserved
===============================================================================
