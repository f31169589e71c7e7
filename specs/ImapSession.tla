----------------------------- MODULE ImapSession -----------------------------
(* One mail client's session with the citm, as the client and the upstream    *)
(* server see it.  The client may send any number of commands ahead; the citm *)
(* answers every command exactly once, in order, as RFC 3501 has it for the   *)
(* state the session is in when the command's turn comes, and it sends the    *)
(* server exactly the commands which are the server's to answer.              *)
(*                                                                            *)
(* s.st   "anon" "auth" "sel" "over"                                          *)
(* s.box  the selected mailbox, s.ro read-only                                *)
(* s.q    commands which are not processed, the head is the one in progress   *)
(* s.w    progress of the head: "" | "plus" (literals asked for) | "sent"     *)
(* s.exp  what the client must get next, in this order                        *)
(* s.fz   mailboxes which other sessions are deleting or renaming             *)
(* s.cz   something happened which ends the session                           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Local     == {"capa", "noop", "starttls", "enable", "unselect", "xkeysync", "bad", "selp"}
Passed    == {"list", "lsub", "status", "create", "delete", "rename", "sub", "unsub", "append"}
NeedsSel  == {"check", "close", "expunge", "search", "fetch", "store", "copy"}

S0 == [st |-> "anon", box |-> "", ro |-> FALSE, q |-> <<>>, w |-> "", exp |-> <<>>, cz |-> FALSE, bye |-> FALSE, fz |-> {}]

Tag(c, sts) == [k |-> "tag", id |-> c.id, sts |-> sts, t |-> -1, c |-> "", un |-> {}]
Plus == [k |-> "plus"]
Pop(s) == [s EXCEPT !.q = Tail(@), !.w = ""]
Say(s, x) == [s EXCEPT !.exp = Append(@, x)]

(* is the head to be answered at once with a refusal? *)
Refused(s, c) ==
    CASE s.st = "anon" -> c.k \notin {"capa", "noop", "login", "logout"}
      [] c.k \in {"starttls", "enable", "unselect", "xkeysync", "bad", "selp", "login"} -> TRUE
      [] s.st = "auth" /\ c.k \in NeedsSel -> TRUE
      \* a name which is no mailbox of its own below the mail directory (c.out)
      [] c.out = 1 /\ c.k \in {"status", "delete", "rename", "append", "copy"} -> TRUE
      [] OTHER -> FALSE
(* deleting or renaming what is selected *)
Kept(s, c) == s.st = "sel" /\ ((c.k = "delete" /\ c.a = s.box) \/ (c.k = "rename" /\ s.box \in {c.a, c.b}))

RECURSIVE Go(_)
Go(s) ==
    IF s.st = "over" \/ s.q = <<>> THEN s
    ELSE LET c == Head(s.q) IN
    IF s.w = "" /\ c.lit > 0 THEN
        (* each synchronising literal is asked for when the command's turn comes *)
        LET ask[n \in 0..8] == IF n = 0 THEN <<>> ELSE Append(ask[n - 1], Plus)
        IN  Go([s EXCEPT !.exp = @ \o ask[c.lit], !.w = "plus"])
    ELSE IF s.w = "sent" THEN s
    ELSE IF Refused(s, c) THEN Go(Pop(Say(s, Tag(c, IF s.st # "anon" /\ c.out = 1 THEN {"NO", "BAD"}
                                             ELSE IF c.k = "login" \/ s.st # "anon" THEN {"BAD"} ELSE {"BAD", "NO"}))))
    ELSE IF c.k = "capa" THEN Go(Pop(Say(s, [Tag(c, {"OK"}) EXCEPT !.un = {"CAPABILITY"}])))
    ELSE IF c.k = "noop" THEN Go(Pop(Say(s, Tag(c, {"OK"}))))
    ELSE IF c.k = "check" THEN Go(Pop(Say(s, Tag(c, {"OK"}))))
    ELSE IF c.k \in {"delete", "rename"} /\ Kept(s, c) THEN Go(Pop(Say(s, Tag(c, {"NO"}))))
    ELSE IF c.k = "logout" THEN [Say(Say(s, [k |-> "bye"]), Tag(c, {"OK"})) EXCEPT !.w = "sent"]
    ELSE IF c.k = "idle" THEN
        IF s.w # "idle" THEN Go([Say(s, Plus) EXCEPT !.w = "idle"])
        ELSE IF Len(s.q) < 2 THEN s
        ELSE Go([Pop(Pop(s)) EXCEPT !.exp = Append(@, Tag(c, IF s.q[2].k = "done" THEN {"OK"} ELSE {"BAD"}))])
    ELSE s       \* waits for the server, or answers in its own time

(* kinds the citm answers in its own time, and with what *)
Verdicts(s, c) ==
    CASE c.k = "login" -> IF c.ok = 1 THEN {"OK"} ELSE {"NO"}
      [] c.k \in {"sel", "exa"} -> (IF c.ok = 1 /\ c.out = 0 THEN {"OK"} ELSE {"NO"}) \union (IF c.a \in s.fz THEN {"NO"} ELSE {})
      [] c.k \in {"delete", "rename"} -> IF s.fz \intersect {c.a, c.b} # {} /\ s.w # "sent" THEN {"NO"} ELSE {}
      \* a message number (not a UID) which no message has is refused: the mailbox may be empty
      [] c.k \in {"store", "expunge"} ->
            (IF s.ro THEN {"NO", "BAD"} ELSE {"OK"}) \union (IF c.k = "store" /\ c.uid = 0 THEN {"BAD"} ELSE {})
      [] c.k = "copy" -> {"OK", "NO", "BAD"}
      [] c.k = "fetch" -> {"OK"} \union (IF c.uid = 0 THEN {"BAD"} ELSE {})
      [] c.k \in {"close", "search"} -> {"OK"}
      [] OTHER -> {}
Answered(s, c, r) ==
    CASE c.k = "login" /\ r = "OK" -> [s EXCEPT !.st = "auth"]
      [] c.k \in {"sel", "exa"} /\ r = "OK" -> [s EXCEPT !.st = "sel", !.box = c.a, !.ro = (c.k = "exa")]
      [] c.k \in {"sel", "exa"} -> [s EXCEPT !.st = "auth", !.box = "", !.ro = FALSE]
      [] c.k = "close" -> [s EXCEPT !.st = "auth", !.box = "", !.ro = FALSE]
      [] OTHER -> s
(* what the answers to these commands must be accompanied by *)
With(c, r) ==
    CASE c.k \in {"sel", "exa"} /\ r = "OK" -> {"FLAGS", "EXISTS", "RECENT", "UIDNEXT", "UIDVALIDITY"}
      [] c.k = "search" /\ r = "OK" -> {"SEARCH"}
      [] OTHER -> {}

Busy(s) == s.q # <<>>
InProgress(s) == Head(s.q)
(* deleting or renaming a mailbox ends the sessions which have it open *)
Thrown(s) == \/ s.st = "sel" /\ s.box \in s.fz
             \/ Busy(s) /\ InProgress(s).k \in {"sel", "exa"} /\ InProgress(s).a \in s.fz
(* unsolicited data about the selected mailbox *)
MayTell(s) == \/ s.st = "sel" /\ ~(Busy(s) /\ s.exp = <<>> /\ InProgress(s).k = "close")
              \/ Busy(s) /\ InProgress(s).k \in {"sel", "exa"}
NoExpunge(s) == Busy(s) /\ s.exp = <<>> /\ InProgress(s).k \in {"fetch", "store", "search"} /\ InProgress(s).uid = 0
==============================================================================
