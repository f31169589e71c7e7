--------------------------- MODULE ImapSessionTrace ---------------------------
EXTENDS ImapSession, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, pos, s, un
vars == <<tr, pos, s, un>>
Ev == Traces[tr].ev[pos]
TraceInit == tr \in 1..Len(Traces) /\ pos = 1 /\ s = S0 /\ un = {}

Upd(x) == s' = Go(x)
Same == UNCHANGED s
H == Head(s.exp)

(* the client sends a command (its bytes may arrive in pieces) *)
Cmd(e) == e.e = "cmd" /\ Upd([s EXCEPT !.q = Append(@, e)]) /\ UNCHANGED un
(* the citm sends the server a command of the client's *)
Up(e) == /\ e.e = "up" /\ Busy(s) /\ s.w \in {"", "plus"}
         /\ LET c == InProgress(s) IN
            /\ c.k \in Passed \union {"login"} /\ c.k = e.k /\ c.a = e.a /\ c.b = e.b
            /\ (c.k = "login") <=> (s.st = "anon")
            /\ ~Kept(s, c)
         /\ s' = [s EXCEPT !.w = "sent"] /\ UNCHANGED un
(* the server's answer reaches the citm *)
Line(e) == /\ e.e = "line" /\ UNCHANGED un
           /\ s' = IF Busy(s) /\ s.w = "sent" /\ InProgress(s).k = e.k THEN Say(s, [k |-> "line", v |-> e.v]) ELSE s
Rep(e) == /\ e.e = "rep" /\ UNCHANGED un
          /\ Busy(s) /\ s.w = "sent" /\ InProgress(s).k \in Passed
          /\ Upd(Pop(Say(s, [Tag(InProgress(s), {e.st}) EXCEPT !.t = e.t, !.c = e.c])))

(* what the client gets *)
GotTag(e) ==
    /\ e.e = "tag"
    /\ IF s.exp # <<>>
       THEN /\ H.k = "tag" /\ H.id = e.id /\ e.st \in H.sts
            /\ H.t # -1 => (H.t = e.t /\ H.c = e.c)
            /\ H.un \subseteq un
            /\ LET s1 == [s EXCEPT !.exp = Tail(@)] IN
               s' = IF Busy(s) /\ InProgress(s).id = e.id /\ InProgress(s).k = "logout" THEN [s1 EXCEPT !.st = "over"] ELSE s1
       ELSE /\ Busy(s) /\ LET c == InProgress(s) IN
               /\ c.id = e.id /\ e.st \in Verdicts(s, c)
               /\ c.k = "login" => s.w = "sent"
               /\ With(c, e.st) \subseteq un
               /\ (c.k \in {"sel", "exa"} /\ e.st = "OK") => e.c = (IF c.k = "sel" THEN "READ-WRITE" ELSE "READ-ONLY")
               /\ Upd(Answered(Pop(s), c, e.st))
    /\ un' = {}
GotPlus(e) == e.e = "plus" /\ s.exp # <<>> /\ H.k = "plus" /\ s' = [s EXCEPT !.exp = Tail(@)] /\ UNCHANGED un
GotLine(e) == e.e = "got" /\ s.exp # <<>> /\ H.k = "line" /\ H.v = e.v /\ s' = [s EXCEPT !.exp = Tail(@)] /\ UNCHANGED un
GotBye(e) == /\ e.e = "bye"
             /\ \/ s.exp # <<>> /\ H.k = "bye" /\ s' = [s EXCEPT !.exp = Tail(@)]
                \/ s.cz /\ ~s.bye /\ s' = [s EXCEPT !.bye = TRUE]
             /\ UNCHANGED un
GotUn(e) ==
    /\ e.e = "un" /\ Same /\ un' = un \union {e.k}
    /\ CASE e.k \in {"EXISTS", "RECENT", "FETCH"} -> MayTell(s)
         [] e.k = "EXPUNGE" -> MayTell(s) /\ ~NoExpunge(s)
         [] e.k = "SEARCH" -> Busy(s) /\ InProgress(s).k = "search" /\ s.exp = <<>> /\ "SEARCH" \notin un
         [] e.k \in {"FLAGS", "UIDNEXT", "UIDVALIDITY", "PERMANENTFLAGS", "UNSEEN"} -> Busy(s) /\ InProgress(s).k \in {"sel", "exa"} /\ s.exp = <<>>
         [] e.k = "CAPABILITY" -> s.exp # <<>> /\ H.k = "tag" /\ "CAPABILITY" \in H.un /\ "CAPABILITY" \notin un
         [] e.k = "OK" -> TRUE
         [] OTHER -> FALSE
Frz(e) == e.e = "frz" /\ s' = [s EXCEPT !.fz = @ \union {e.a}] /\ UNCHANGED un
Cause(e) == e.e = "cause" /\ s' = [s EXCEPT !.cz = TRUE] /\ UNCHANGED un
Closed(e) == e.e = "closed" /\ (s.st = "over" \/ s.cz \/ Thrown(s)) /\ s' = [s EXCEPT !.st = "over", !.q = <<>>, !.exp = <<>>] /\ UNCHANGED un
(* what changed in the file system outside of the user's mail directory *)
Tree(e) == e.e = "tree" /\ e.out = <<>> /\ Same /\ UNCHANGED un
(* nothing is in flight: nobody waits *)
Quiet(e) == /\ e.e = "quiet" /\ s' = [s EXCEPT !.fz = {}] /\ UNCHANGED un
            /\ s.exp = <<>>
            /\ e.open = 1 => /\ s.st # "over"
                             /\ ~s.cz
                             /\ s.q # <<>> => InProgress(s).k = "idle" /\ Len(s.q) = 1
            /\ e.open = 0 => s.st = "over"

(* after the end nothing is said; a session which is ending need not answer *)
Alive == s.st # "over"
Dying(e) == s.cz /\ e.e \in {"cmd", "up", "line", "rep", "tag", "plus", "got", "un"} /\ Same /\ UNCHANGED un
Step(e) == \/ Alive /\ ~s.cz /\ (Cmd(e) \/ Up(e) \/ Line(e) \/ Rep(e) \/ GotTag(e) \/ GotPlus(e) \/ GotLine(e) \/ GotUn(e))
           \/ Alive /\ Dying(e)
           \/ Alive /\ GotBye(e)
           \/ ~Alive /\ e.e \in {"cmd", "line", "rep"} /\ Same /\ UNCHANGED un
           \/ Frz(e) \/ Cause(e) \/ Closed(e) \/ Quiet(e) \/ Tree(e)
TraceNext ==
    \/ pos <= Len(Traces[tr].ev) /\ Step(Ev) /\ pos' = pos + 1 /\ UNCHANGED tr
    \/ pos > Len(Traces[tr].ev) /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_vars
==============================================================================
