---------------------------- MODULE KvpSyncTrace ----------------------------
(* every recorded execution of the real sender and receiver must be a behaviour of KvpSync *)
EXTENDS KvpSync, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos
tvars == <<vars, tr, pos>>
Ev == Traces[tr].ev[pos]
Pkt == [ty |-> Ev.ty, sync |-> Ev.sync, upd |-> Ev.upd, rs |-> Ev.rs, k |-> Ev.k, g |-> Ev.g, d |-> Ev.d, exp |-> Ev.exp]

TraceInit ==
    /\ tr \in 1..Len(Traces) /\ pos = 1
    /\ now = Traces[tr].ev[1].now /\ gens = <<>> /\ cache = [k \in Keys |-> 0]
    /\ snd = NewSnd(0, {}, 0) /\ rcv = NewRcv(0) /\ pend = {}

Step ==
    \/ Ev.e = "sr" /\ SenderRestart
    \/ Ev.e = "rr" /\ Ev.rid # 0 /\ Ev.rid # rcv.rid /\ RecvRestart(Ev.rid)
    \/ Ev.e = "adv" /\ Advance(Ev.now)
    \/ Ev.e = "send" /\ Send(Pkt) /\ BeliefTimely
    \/ Ev.e = "idle" /\ BeliefTimely /\ Ev.dl > now /\ UNCHANGED vars
    \/ Ev.e = "st" /\ (IF Ev.ok THEN BelieveOk ELSE BelieveNotOk)
    \/ Ev.e = "add" /\ Add(Ev.k)
    \/ Ev.e = "del" /\ Del(Ev.k)
    \/ Ev.e = "deliver" /\ RecvAck(rcv, Pkt) = <<Ev.as, Ev.au>> /\ Deliver(Pkt)
    \/ Ev.e = "ack" /\ HandleAck(Ev.as, Ev.au)
    \/ Ev.e = "cb" /\ Callback(Ev.g)
    \/ Ev.e = "ackend" /\ AckDone /\ (snd.ok => ~snd.resynced)
    \/ Ev.e = "q" /\ Ev.r = (IF Ev.k \in Keys THEN Value(rcv, Ev.k) ELSE IF rcv.sid = 0 THEN -1 ELSE Negative(rcv)) /\ UNCHANGED vars
    \/ Ev.e = "heal" /\ UNCHANGED vars
    \/ Ev.e = "end" /\ Converged /\ UNCHANGED vars

TraceNext ==
    \/ pos <= Len(Traces[tr].ev) /\ Step /\ pos' = pos + 1 /\ UNCHANGED tr
    \/ pos > Len(Traces[tr].ev) /\ UNCHANGED tvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
