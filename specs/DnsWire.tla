------------------------------ MODULE DnsWire ------------------------------
(* DNS messages (RFC 1035, RFC 6891) as the name server of the user zone has to read
   and write them.  A message is a sequence of byte values; offsets count from 0. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets
By(B, o) == B[o + 1]
U16(B, o) == By(B, o) * 256 + By(B, o + 1)
Has(B, o, n) == o + n <= Len(B)
Bad == [ok |-> FALSE]
Low(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
LowS(s) == [i \in 1..Len(s) |-> Low(s[i])]
\* a name: labels of up to 63 bytes, 255 bytes in all, pointers followed but never pointer to pointer
RECURSIVE Walk(_, _, _, _, _, _)
Walk(B, o, total, labels, wasptr, next) ==
    IF ~Has(B, o, 1) THEN Bad
    ELSE LET l == By(B, o) IN
        IF l >= 192
        THEN IF wasptr \/ ~Has(B, o, 2) THEN Bad
             ELSE Walk(B, (l - 192) * 256 + By(B, o + 1), total, labels, TRUE, IF next < 0 THEN o + 2 ELSE next)
        ELSE IF l > 63 \/ ~Has(B, o + 1, l) \/ total + l + 1 > 255 THEN Bad
        ELSE IF l = 0 THEN [ok |-> TRUE, next |-> IF next < 0 THEN o + 1 ELSE next, labels |-> labels]
        ELSE Walk(B, o + 1 + l, total + l + 1, Append(labels, SubSeq(B, o + 2, o + 1 + l)), FALSE, next)
Name(B, o) == Walk(B, o, 0, <<>>, FALSE, -1)
\* n resource records from offset o
RECURSIVE Rrs(_, _, _, _)
Rrs(B, o, n, acc) ==
    IF n = 0 THEN [ok |-> TRUE, next |-> o, rrs |-> acc]
    ELSE LET nm == Name(B, o) IN
        IF ~nm.ok THEN Bad
        ELSE LET p == nm.next IN
            IF ~Has(B, p, 10) THEN Bad
            ELSE IF ~Has(B, p + 10, U16(B, p + 8)) THEN Bad
            ELSE LET len == U16(B, p + 8)
                 IN Rrs(B, p + 10 + len, n - 1, Append(acc,
                        [root |-> By(B, o) = 0, name |-> nm.labels, type |-> U16(B, p), class |-> U16(B, p + 2),
                         ttl |-> <<U16(B, p + 4), U16(B, p + 6)>>, data |-> SubSeq(B, p + 11, p + 10 + len), at |-> p + 10]))
\* the options of an OPT record
RECURSIVE Opts(_, _)
Opts(D, o) == IF o = Len(D) THEN TRUE
              ELSE IF ~Has(D, o, 4) THEN FALSE
              ELSE IF ~Has(D, o + 4, U16(D, o + 2)) THEN FALSE
              ELSE Opts(D, o + 4 + U16(D, o + 2))
Sel(s, t) == SelectSeq(s, LAMBDA r : r.type = t)
OPT == 41
\* a message with exactly one question
Msg(B) ==
    IF ~Has(B, 0, 12) THEN Bad ELSE IF U16(B, 4) # 1 THEN Bad
    ELSE LET qn == Name(B, 12) IN IF ~qn.ok THEN Bad ELSE IF ~Has(B, qn.next, 4) THEN Bad
    ELSE LET an == Rrs(B, qn.next + 4, U16(B, 6), <<>>) IN IF ~an.ok THEN Bad
    ELSE LET ns == Rrs(B, an.next, U16(B, 8), <<>>) IN IF ~ns.ok THEN Bad
    ELSE LET ar == Rrs(B, ns.next, U16(B, 10), <<>>) IN IF ~ar.ok THEN Bad
    ELSE LET opt == Sel(ar.rrs, OPT) IN
         IF Len(opt) > 1 THEN Bad
         ELSE IF Len(opt) = 1 /\ ~(opt[1].root /\ Opts(opt[1].data, 0)) THEN Bad
         ELSE [ok |-> TRUE, id |-> U16(B, 0), qr |-> By(B, 2) \div 128, opcode |-> (By(B, 2) \div 8) % 16,
               aa |-> (By(B, 2) \div 4) % 2, tc |-> (By(B, 2) \div 2) % 2, rd |-> By(B, 2) % 2,
               ra |-> By(B, 3) \div 128, z |-> (By(B, 3) \div 16) % 8, rcode |-> By(B, 3) % 16,
               qn |-> qn.labels, qt |-> U16(B, qn.next), qc |-> U16(B, qn.next + 2),
               an |-> an.rrs, ns |-> ns.rrs, ar |-> ar.rrs, opt |-> opt, next |-> ar.next]
---------------------------------------------------------------------------
(* which answer a question deserves *)
COM == <<99, 111, 109>>
SM == <<115, 112, 108, 105, 110, 116, 101, 114, 109, 97, 105, 108>>
USER == <<117, 115, 101, 114>>
ACME == <<95, 97, 99, 109, 101, 45, 99, 104, 97, 108, 108, 101, 110, 103, 101>>
Zone == <<USER, SM, COM>>
NS1 == <<<<110, 115, 49>>, SM, COM>>
NS2 == <<<<110, 115, 50>>, SM, COM>>
CaaData == <<128, 5>> \o <<105, 115, 115, 117, 101>> \o
           <<108, 101, 116, 115, 101, 110, 99, 114, 121, 112, 116, 46, 111, 114, 103>>
LowN(n) == [i \in 1..Len(n) |-> LowS(n[i])]
Tail3(n) == LET m == Len(n) IN <<n[m - 2], n[m - 1], n[m]>>
InZone(n) == Len(n) >= 3 /\ LowN(Tail3(n)) = Zone
\* is the message one that must be answered at all
Worthy(m) == m.ok /\ m.qr = 0 /\ m.opcode = 0 /\ m.qc = 1 /\ m.qt # 0 /\ InZone(m.qn)
Known(t) == t <= 16 \/ t = 28 \/ t = 257
Rec(name, t, data) == [name |-> name, type |-> t, data |-> data]
Ans(recs) == [rcode |-> 0, aa |-> 1, soa |-> FALSE, an |-> recs]
NoData == [rcode |-> 0, aa |-> 1, soa |-> TRUE, an |-> <<>>]
Neg(rc, aa, soa) == [rcode |-> rc, aa |-> aa, soa |-> soa, an |-> <<>>]
IsChallenge(m) == Len(m.qn) = 5 /\ LowS(m.qn[1]) = ACME
\* the published value kv applies to challenge questions: [k |-> "yes"/"no"/"unsure", v |-> bytes]
Policy(m, kv) ==
    IF ~Known(m.qt) THEN Neg(4, 0, FALSE)
    ELSE IF Len(m.qn) = 3 THEN
        CASE m.qt = 6 -> Ans(<<Rec(Zone, 6, <<>>)>>)
          [] m.qt = 2 -> Ans(<<Rec(Zone, 2, NS1), Rec(Zone, 2, NS2)>>)
          [] m.qt = 257 -> Ans(<<Rec(m.qn, 257, CaaData)>>)
          [] OTHER -> NoData
    ELSE IF Len(m.qn) = 4 THEN
        CASE m.qt = 1 -> Ans(<<Rec(m.qn, 1, <<127, 0, 0, 1>>)>>)
          [] m.qt = 28 -> Ans(<<Rec(m.qn, 28, [i \in 1..16 |-> IF i = 16 THEN 1 ELSE 0])>>)
          [] m.qt = 257 -> Ans(<<Rec(m.qn, 257, CaaData)>>)
          [] OTHER -> NoData
    ELSE IF IsChallenge(m) THEN
        IF m.qt # 16 THEN NoData
        ELSE CASE kv.k = "yes" -> Ans(<<Rec(m.qn, 16, <<Len(kv.v)>> \o kv.v)>>)
               [] kv.k = "no" -> NoData
               [] OTHER -> Neg(2, 1, FALSE)
    ELSE Neg(3, 1, TRUE)
Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
MAXUDP == 4096
Limit(m) == IF m.opt = <<>> THEN 512 ELSE Max(512, Min(MAXUDP, m.opt[1].class))
\* record i of the reply R (bytes) is the wanted one
RecOk(R, r, w) ==
    /\ r.class = 1 /\ r.type = w.type /\ LowN(r.name) = LowN(w.name)
    /\ CASE w.type = 2 -> (LET n == Name(R, r.at) IN n.ok /\ n.labels = w.data /\ n.next = r.at + Len(r.data))
         [] w.type = 6 -> (LET n == Name(R, r.at) IN n.ok /\ n.labels = NS1 /\
                           (LET n2 == Name(R, n.next) IN n2.ok /\ n2.next + 20 = r.at + Len(r.data)))
         [] OTHER -> r.data = w.data
Soa == Rec(Zone, 6, <<>>)
\* R is the right reply to the worthy message m
Right(m, R, kv) ==
    LET w == Policy(m, kv)
        r == Msg(R)
    IN /\ Len(R) <= Limit(m)
       /\ r.ok /\ r.next = Len(R)
       /\ r.id = m.id /\ r.qr = 1 /\ r.opcode = 0 /\ r.rd = m.rd /\ r.ra = 0 /\ r.z = 0 /\ r.tc = 0
       /\ r.rcode = w.rcode /\ r.aa = w.aa
       /\ r.qn = m.qn /\ r.qt = m.qt /\ r.qc = m.qc
       /\ Len(r.an) = Len(w.an) /\ (\A i \in 1..Len(w.an) : RecOk(R, r.an[i], w.an[i]))
       /\ (IF w.soa THEN Len(r.ns) = 1 /\ RecOk(R, r.ns[1], Soa) ELSE r.ns = <<>>)
       /\ (IF m.opt = <<>> THEN r.ar = <<>>
           ELSE Len(r.ar) = 1 /\ Len(r.opt) = 1 /\ r.opt[1].class >= 512 /\ r.opt[1].data = <<>>
                /\ r.opt[1].ttl = <<0, 0>>)
=============================================================================
