-------------------------------- MODULE StreamZ --------------------------------
(* Streams of the debugger with compression. The client receives the stream in chunks; the
   meaning of these is given by a decoder for the heatshrink format (window 8, lookahead 4).
   A stream is [acc: accepted data of this message, out: compressed data given to the client,
   bl: flushed, not read yet, tch: a sample was taken]. *)
EXTENDS Debugger

Pow2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256>>
Bit(b, i) == (b[i \div 8 + 1] \div Pow2[8 - (i % 8)]) % 2
RECURSIVE Bits(_, _, _)
Bits(b, i, n) == IF n = 0 THEN 0 ELSE 2 * Bits(b, i, n - 1) + Bit(b, i + n - 1)
RECURSIVE Copy(_, _, _)
Copy(a, back, n) == IF n = 0 THEN a ELSE Copy(Append(a, IF back > Len(a) THEN 0 ELSE a[Len(a) + 1 - back]), back, n - 1)
\* decoding of b from bit i, given the output up to there; an incomplete symbol is left alone
RECURSIVE Dec(_, _, _)
Dec(b, i, a) == IF 8 * Len(b) - i < 9 THEN a
    ELSE IF Bit(b, i) = 1 THEN Dec(b, i + 9, Append(a, Bits(b, i + 1, 8)))
    ELSE IF 8 * Len(b) - i < 13 THEN a
    ELSE Dec(b, i + 13, Copy(a, Bits(b, i + 1, 8) + 1, Bits(b, i + 9, 4) + 1))
Decode(b) == Dec(b, 0, <<>>)
\* upper bound of the compressed size
Bound(n) == (9 * n + 7) \div 8

New == [acc |-> <<>>, out |-> <<>>, bl |-> FALSE, tch |-> FALSE]
ZAlloc(c, z, s) == IF s \in DOMAIN z THEN {z}
    ELSE IF Cardinality(DOMAIN z) < c.streams THEN {Put(z, s, New)}
    ELSE {Put(Drop(z, e), s, New) : e \in {e \in DOMAIN z : z[e].acc = <<>>}}
NoAlloc(c, z, s) == s \notin DOMAIN z /\ Cardinality(DOMAIN z) >= c.streams /\ \A e \in DOMAIN z : z[e].acc # <<>> \/ z[e].tch
\* there must be room for more
Room(c, x) == Bound(Len(x.acc)) - Len(x.out) < c.sbuf

\* the application writes b, of which n bytes are accepted
ZWrite(c, z, s, b, n) ==
    IF s = 63 THEN IF n = 0 THEN {z} ELSE {}
    ELSE (IF n = 0 /\ NoAlloc(c, z, s) THEN {z} ELSE {})
        \cup {[y EXCEPT ![s].acc = @ \o SubSeq(b, 1, n)] :
            y \in {y \in ZAlloc(c, z, s) : n <= Len(b) /\ (y[s].bl => n = 0) /\ (b # <<>> /\ ~y[s].bl /\ Room(c, y[s]) => n > 0)}}
\* data x is given to the client
ZRead(z, s, x) == LET o == z[s].out \o x
                      t == Decode(o) IN
    IF z[s].bl THEN IF t = z[s].acc THEN {[z EXCEPT ![s] = New]} ELSE {}
    ELSE IF IsPrefix(t, z[s].acc) THEN {[z EXCEPT ![s].out = o]} ELSE {}
ZFlush(z, S) == [s \in DOMAIN z |-> IF s \in S THEN [z[s] EXCEPT !.bl = TRUE] ELSE z[s]]
ZListed(z, r) == LET R == {r[i] : i \in 1..Len(r)} IN
    IF r = Nack THEN \A s \in DOMAIN z : z[s].acc = <<>>
    ELSE Len(r) = Cardinality(R) /\ R \subseteq {s \in DOMAIN z : z[s].acc # <<>> \/ z[s].tch}
        /\ {s \in DOMAIN z : z[s].acc # <<>>} \subseteq R
\* outcomes of a request: [r, d, z]; the response is given
ZOut(d, z) == [d |-> d, z |-> z]
ZRequest(d, z, q, r) == LET a == Tail(q) IN
    IF q[1] = 115 THEN
        IF a = <<>> THEN IF ZListed(z, r) THEN {ZOut(d, z)} ELSE {}
        ELSE IF a[1] \notin DOMAIN z THEN IF r = Nack THEN {ZOut(d, z)} ELSE {}
        ELSE LET n == Len(r) - Len(Tail(a)) IN
            IF n < 0 THEN {} ELSE IF SubSeq(r, n + 1, Len(r)) # Tail(a) THEN {}
            ELSE {ZOut(d, y) : y \in ZRead(z, a[1], SubSeq(r, 1, n))}
    ELSE IF q[1] = 102 THEN
        IF Len(a) > 1 THEN IF r = Nack THEN {ZOut(d, z)} ELSE {}
        ELSE IF r # Ack THEN {} ELSE {ZOut(d, ZFlush(z, IF a = <<>> THEN DOMAIN z ELSE {a[1]}))}
    ELSE IF q[1] = 116 /\ Len(a) > 1 THEN
        LET off == [d EXCEPT !.tr.dec = 0]
            x == IF Len(a) > 10 THEN SubSeq(a, 3, 10) ELSE Rest(a, 3)
            n == IF x = <<>> THEN 1 ELSE Number(x, 0)
            nok == IF r = Nack THEN {off, d} ELSE {}
        IN IF a[2] = 63 THEN {ZOut(e, z) : e \in nok}
           ELSE (IF NoAlloc(d.c, z, a[2]) THEN {ZOut(e, z) : e \in nok} ELSE {})
             \cup (IF x # <<>> /\ ~IsHex(x) THEN {ZOut(e, y) : e \in nok, y \in ZAlloc(d.c, z, a[2])}
                   ELSE IF r # Ack THEN {}
                   ELSE {ZOut([d EXCEPT !.tr = [m |-> a[1], s |-> a[2], dec |-> n, cnt |-> k]], y) : k \in {0, d.tr.cnt}, y \in ZAlloc(d.c, z, a[2])})
    ELSE {ZOut(o.d, z) : o \in {o \in Request(d, q) : o.r = r}}
\* the application calls trace()
ZSample(d, z) == IF d.tr.dec = 0 THEN {ZOut(d, z)}
    ELSE IF d.tr.cnt + 1 < d.tr.dec THEN {ZOut([d EXCEPT !.tr.cnt = @ + 1], z)}
    ELSE LET e == [d EXCEPT !.tr.cnt = 0]
             s == d.tr.s IN
        (IF NoAlloc(d.c, z, s) THEN {ZOut(e, z)} ELSE {})
        \cup UNION {LET x == y[s] IN
            (IF ~Room(d.c, x) \/ x.bl \/ e.tr.m \notin DOMAIN e.ma THEN {ZOut(e, y)} ELSE {})
            \cup (IF e.tr.m \notin DOMAIN e.ma THEN {} ELSE
                {ZOut(p.d, [y EXCEPT ![s].acc = IF x.bl THEN @ ELSE @ \o p.r, ![s].tch = TRUE]) :
                    p \in LET def == e.ma[e.tr.m] IN Seq_(Out(<<>>, e), IF Len(def) = 1 THEN <<>> ELSE SplitAt(Tail(def), def[1]), {e.tr.m})})
            : y \in ZAlloc(d.c, z, s)}
================================================================================
