----------------------------- MODULE KvpSendMC -----------------------------
(* exhaustive exploration of KvpSend: any acknowledgements, health changes, database changes and subscribers *)
EXTENDS KvpSend
CONSTANTS MAXNOW, MAXSUB, MAXC
VARIABLES ends,   \* history: subscriber -> sequence of replies
          served  \* history: <<n, c>> which were acknowledged by all (>= 1) healthy replicas at some moment
mvars == <<vars, ends, served>>
MCInit == Init0(0) /\ ends = <<>> /\ served = {}
Hist == served' = served \union {<<n, ent'[n].c>> : n \in {m \in Names : ent'[m].c # 0 /\ ok' # {} /\ (\A p \in ok' : <<m, ent'[m].c>> \in ackd'[p])}}
Q == UNCHANGED ends /\ Hist
Fact == call \in {"recv", "timer"} /\ xdue = {} /\
    ( (\E p \in Peers, n \in Names : ent[n].c # 0 /\ ~Acked(p, n) /\ Ack(p, n, ent[n].c))
      \/ (\E p \in Peers : p \notin ok /\ ackd[p] # {} /\ Resync(p)) \/ (\E p \in Peers, b \in BOOLEAN : State(p, b)) ) /\ Q
Say(i, w) == ends' = [ends EXCEPT ![i] = Append(@, w)] /\ Hist
Out == \E i \in 1..Len(ends) : (TellReady(i) /\ Say(i, "k")) \/ (Close(i) /\ Say(i, "x")) \/ (TellTimeout(i) /\ Say(i, "t"))
MCNext ==
    \/ \E n \in Names, c \in 0..MAXC : c # db[n] /\ DbSet(n, c) /\ Q
    \/ \E k \in {"scan", "recv", "tmo"} : Begin(k, 0, 0, 0) /\ Q
    \/ /\ Len(ends) < MAXSUB
       /\ \E n \in Names, c \in 1..MAXC : Begin("sub", Len(ends) + 1, n, c)
       /\ ends' = Append(ends, <<>>) /\ Hist
    \/ Fact \/ Out \/ (End /\ Q) \/ (Advance(now + 1) /\ Q)
MCSpec == MCInit /\ [][MCNext]_mvars
Small == now <= MAXNOW
OneEnd == \A i \in 1..Len(ends) : Len(ends[i]) <= 1
\* whoever is still without a reply is waiting for what is published, or is being let go
NobodyLost == \A i \in 1..Len(ends) : ends[i] = <<>> => (i = cur.i \/ i \in xdue \/ (\E w \in wait : w.i = i))
NobodyLate == \A w \in wait : now <= w.dl
ReadyWasServed == \A n \in Names : ent[n].rdy => <<n, ent[n].c>> \in served
=============================================================================
