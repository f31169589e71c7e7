------------------------------- MODULE KeydirMC -------------------------------
(* every history over a few keys and mailboxes, crashes and failures included *)
EXTENDS Keydir
CONSTANTS F, MBX, NFAULT
VARIABLES faults, wasfault
MCInit == KInit(0, F) /\ faults = 0 /\ wasfault = {}
Seqs == UNION {[1..n -> F] : n \in 0..2}
Ok == UNCHANGED <<faults, wasfault>>
Flt(fs) == faults < NFAULT /\ faults' = faults + 1 /\ wasfault' = wasfault \cup fs
MCNext ==
    \/ \E r \in Seqs, mb \in MBX : Decrypt(r, mb) /\ Ok
    \/ \E f \in F : Add(f) /\ Ok
    \/ \E f \in F : Del(f, FALSE) /\ Ok
    \/ \E mb \in MBX : Synced(mb) /\ Ok
    \/ XDone /\ Ok
    \/ Restart /\ Ok
    \/ \E r \in Seqs, mb \in MBX : (Failed(DecSteps(r, mb), mb \in synced) \/ Crashed(DecSteps(r, mb), mb \in synced)) /\ Flt({r[i] : i \in DOMAIN r})
    \/ \E f \in F \ keys : (Failed(AddSteps(f), xdone) \/ Crashed(AddSteps(f), xdone)) /\ Flt({f})
    \/ \E f \in F : (Del(f, TRUE) \/ Crashed(DelSteps(f), FALSE)) /\ Flt({f})
    \/ \E mb \in MBX : (Failed(SyncSteps(mb), FALSE) \/ Crashed(SyncSteps(mb), FALSE)) /\ Flt({})
MCSpec == MCInit /\ [][MCNext]_<<kvars, faults, wasfault>>
(* told exactly once, unless the telling was interrupted *)
Once == \A f \in F : sent[f] <= 1 + (IF f \in wasfault THEN faults ELSE 0)
Only == \A f \in F : (ought[f] = 0) => ((sent[f] = 0) \/ (f \in wasfault))
Bound == \A f \in F : sent[f] <= 3
(* never told again: what was seen is never told *)
Quiet == [][\A f \in F : (f \in seen) => (sent'[f] = sent[f])]_<<kvars, faults, wasfault>>
Grow == [][seen \subseteq seen' /\ synced \subseteq synced' /\ (xdone => xdone')]_<<kvars, faults, wasfault>>
===============================================================================
