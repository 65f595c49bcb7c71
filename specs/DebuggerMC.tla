------------------------------- MODULE DebuggerMC -------------------------------
(* The debugger with a small store and a fixed set of requests: properties of the specification,
   and behaviours to be replayed.
   Requests:
   ?? Y Z a1 a1/a a1/b a2/b a2/q
   eh f ix l mX1234567 mY mY;Y mY;Z;Z
   mY;w1/a;w2/a mZ mZ;a1/b mZ;r/a mZ;r1;eh mZ;sB mZ|mZ r/a
   r/b/c r1 r2 ra s sA sB/ t
   tYA tZ? tZB tZB2 tZBg v w1/a w21
   w6/b/c w61/b w6162/b/c wfff/a x *)
EXTENDS Debugger, Json
CONSTANTS Part, NoHist, SimLen
VARIABLES d, cnt, exp, hist
vars == <<d, cnt, exp, hist>>
A == 65
B == 66
Defs == {<<63, 63>>,
    <<114, 97>>,
    <<114, 47, 97>>,
    <<114, 47, 98, 47, 99>>,
    <<119, 102, 102, 102, 47, 97>>,
    <<119, 54, 47, 98, 47, 99>>,
    <<105, 120>>,
    <<118>>,
    <<120>>,
    <<102>>,
    <<101, 104>>,
    <<108>>,
    <<119, 49, 47, 97>>,
    <<119, 54, 49, 47, 98>>,
    <<119, 54, 49, 54, 50, 47, 98, 47, 99>>,
    <<97, 49, 47, 97>>,
    <<97, 49, 47, 98>>,
    <<97, 50, 47, 98>>,
    <<97, 50, 47, 113>>,
    <<97, 49>>,
    <<114, 49>>,
    <<119, 50, 49>>,
    <<114, 50>>,
    <<109, 90, 59, 114, 47, 97>>,
    <<109, 90, 59, 114, 49, 59, 101, 104>>,
    <<109, 90, 124, 109, 90>>,
    <<109, 89, 59, 90, 59, 90>>,
    <<109, 89, 59, 89>>,
    <<109, 90>>,
    <<109, 89>>,
    <<109, 90, 59, 97, 49, 47, 98>>,
    <<109, 89, 59, 119, 49, 47, 97, 59, 119, 50, 47, 97>>,
    <<90>>,
    <<89>>,
    <<109, 88, 49, 50, 51, 52, 53, 54, 55>>}
Strs == {<<63, 63>>,
    <<114, 97>>,
    <<114, 47, 97>>,
    <<114, 47, 98, 47, 99>>,
    <<119, 102, 102, 102, 47, 97>>,
    <<119, 54, 47, 98, 47, 99>>,
    <<105, 120>>,
    <<118>>,
    <<120>>,
    <<102>>,
    <<101, 104>>,
    <<108>>,
    <<109, 90, 59, 114, 47, 97>>,
    <<109, 90>>,
    <<90>>,
    <<115, 65>>,
    <<115, 66, 47>>,
    <<115>>,
    <<116, 90, 66>>,
    <<116, 90, 66, 50>>,
    <<116, 89, 65>>,
    <<116>>,
    <<116, 90, 63>>,
    <<116, 90, 66, 103>>,
    <<109, 90, 59, 115, 66>>}
Reqs == IF Part = 1 THEN Defs ELSE IF Part = 2 THEN Strs ELSE Defs \cup Strs
Conf == [alias |-> 1, macro |-> 12, streams |-> 2, sbuf |-> 3, sover |-> 0, lpa |-> FALSE, f |-> FALSE, id |-> <<105, 100>>, ver |-> <<50, 32, 118, 32, 100, 101, 98, 117, 103>>,
    caps |-> <<63, 114, 119, 101, 108, 97, 109, 105, 118, 82, 87, 115, 116>>, word |-> 8]
Objs == <<[sc |-> <<<<97>>>>, t |-> 48, n |-> 1, v |-> <<0>>], [sc |-> <<<<98>>, <<99>>>>, t |-> 2, n |-> 2, v |-> <<>>]>>

Init == /\ d = [c |-> Conf, st |-> <<[pre |-> <<47, 83>>, id |-> 1, objs |-> Objs]>>, al |-> <<>>, ma |-> <<>>, sm |-> <<>>,
                tr |-> [m |-> 0, s |-> 0, dec |-> 0, cnt |-> 0], mem |-> <<0>>]
        /\ cnt = 0 /\ exp = 0 /\ hist = <<>>
Note(x) == hist' = IF NoHist THEN <<>> ELSE Append(hist, x)
M == 5
\* a stream that delivers the next bytes of the counter
RECURSIVE Consecutive(_, _)
Consecutive(x, k) == x = <<>> \/ (x[1] = k /\ Consecutive(Tail(x), (k + 1) % M))
OnlyApp == d.tr.dec = 0 \/ d.tr.s # A
Req == \E q \in Reqs :
    IF q[1] = 108 THEN Note([q |-> q]) /\ UNCHANGED <<d, cnt, exp>>
    ELSE \E o \in Request(d, q) :
        /\ d' = o.d
        /\ exp' = IF q[1] = 115 /\ Len(q) > 1 /\ q[2] = A /\ o.r # Nack THEN cnt ELSE exp
        /\ UNCHANGED cnt
        /\ Note([q |-> q])
Data(n) == [i \in 1..n |-> (cnt + i - 1) % M]
AppWrite == Part # 1 /\ \E s \in {A, B, 63} : \E n \in 1..2 : \E o \in Write(d, s, IF s = A THEN Data(n) ELSE SubSeq(<<112, 113>>, 1, n)) :
    /\ d' = o.d /\ UNCHANGED exp /\ Note([w |-> s, b |-> IF s = A THEN Data(n) ELSE SubSeq(<<112, 113>>, 1, n)])
    /\ cnt' = IF s = A THEN (cnt + o.n) % M ELSE cnt
Sampling == Part # 1 /\ OnlyApp /\ \E x \in Sample(d) : d' = x /\ UNCHANGED <<cnt, exp>> /\ Note([t |-> 1])
Next == Req \/ AppWrite \/ Sampling
Spec == Init /\ [][Next]_vars

\* limits are kept
Bounded == /\ Cardinality(DOMAIN d.al) <= Conf.alias
           /\ MacroSize(d) <= Conf.macro
           /\ Cardinality(DOMAIN d.sm) <= Conf.streams
           /\ 63 \notin DOMAIN d.sm
           /\ A \in DOMAIN d.sm => Len(d.sm[A]) <= Conf.sbuf
           /\ \A k \in 1..2 : Len(d.st[1].objs[k].v) <= Objs[k].n
\* application data comes out in order, without loss of what was accepted
Fifo == IF A \in DOMAIN d.sm THEN Consecutive(d.sm[A], exp) /\ cnt = (exp + Len(d.sm[A])) % M ELSE cnt = exp
\* A rejected request changes nothing, except that it may stop tracing or create the stream of a trace.
\* A macro does whatever its commands do.
IsMacro(q) == q[1] \in DOMAIN d.ma
RejectedIsNothing == \A q \in Reqs : q[1] # 108 /\ ~IsMacro(q) => \A o \in Request(d, q) : (o.r = Nack /\ q[1] # 116) => o.d = d
\* always an answer; one only, except when the application did anything else before
Answers == \A q \in Reqs : q[1] # 108 => Request(d, q) # {}
\* (for names with all scopes)
Unique == \A q \in Reqs : q[1] \notin {108, 116} /\ ~IsMacro(q) /\ (IF Len(q) > 1 THEN SubSeq(q, Len(q) - 1, Len(q)) ELSE q) # <<47, 98>> => Cardinality({o.r : o \in Request(d, q)}) = 1
\* a repeatable request gives the same response when repeated
RepeatOk == \A q \in Reqs : q[1] # 108 => (Repeatable(d, q) /\ q[1] # 115 => \A o \in Request(d, q) : o.d = d)
\* what has been written can be read back; writing what was read changes nothing
W1 == <<119>>
ReadBack == \A k \in 1..2 : LET nm == IF k = 1 THEN <<47, 97>> ELSE <<47, 98, 47, 99>> IN
    d.st[1].objs[k].v # <<>> => \A o \in Request(d, <<119>> \o Text(d.st[1].objs[k]) \o nm) : o.r = Ack /\ o.d = d
\* a macro is the concatenation of its commands
MacroIsCommands == \A m \in DOMAIN d.ma : LET def == d.ma[m] IN
    (Len(def) > 1 /\ def[1] = 59) =>
        LET qs == SplitAt(Tail(def), 59) IN
        (Len(qs) = 2 /\ qs[1] # <<>> /\ qs[2] # <<>> /\ {qs[1][1], qs[2][1]} \cap (DOMAIN d.ma \cup {109}) = {}) =>
            {<<o.r, o.d>> : o \in Request(d, <<m>>)} = UNION {{<<o.r \o p.r, p.d>> : p \in Request(o.d, qs[2])} : o \in Request(d, qs[1])}
Print_ == (SimLen > 0 /\ Len(hist) = SimLen) => PrintT("BEH " \o ToJson(hist))
================================================================================
