------------------------------- MODULE Debugger --------------------------------
(* The Embedded Debugger: the set of possible outcomes of a request.
   A state d has:
     c    configuration: alias, macro, streams, sbuf, sover (limits), lpa (always list the prefix),
          id, ver (bytes), caps (set of bytes)
     st   mapped stores, sorted by prefix: [pre: bytes, objs: list of [sc, t, n, v]]
     al   aliases: character -> <<store, object>>
     ma   macros: character -> definition
     sm   streams: character -> content
     tr   tracing: [m, s, dec, cnt], dec = 0: disabled
     mem  a piece of memory
   An outcome is [r: response, d: next state]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Names

HexD(n) == IF n < 10 THEN 48 + n ELSE 87 + n
HexBytes(s) == [i \in 1..(2 * Len(s)) |-> LET b == s[(i + 1) \div 2] IN HexD(IF i % 2 = 1 THEN b \div 16 ELSE b % 16)]
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
RECURSIVE Trim(_)
Trim(s) == IF Len(s) > 1 /\ s[1] = 48 THEN Trim(Tail(s)) ELSE s
Nib(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 97..102 THEN c - 87 ELSE IF c \in 65..70 THEN c - 55 ELSE 99
IsHex(s) == \A i \in 1..Len(s) : Nib(s[i]) < 16
Zeros(n) == [i \in 1..n |-> 0]
Fixed(t) == (t \div 32) % 2 = 1
IsInt(t) == (t \div 16) % 2 = 1
Function(t) == (t \div 64) % 2 = 1
Str(t) == t % 64 = 2

\* value -> text
Text(o) == IF o.t = 32 THEN <<IF o.v[1] = 0 THEN 48 ELSE 49>>
    ELSE IF Fixed(o.t) THEN LET h == HexBytes(Rev(o.v)) IN IF IsInt(o.t) THEN Trim(h) ELSE h
    ELSE HexBytes(o.v)
\* text -> bytes
CanParse(o, x) == /\ x # <<>> /\ IsHex(x)
                  /\ IF Fixed(o.t) THEN Len(x) <= 2 * o.n ELSE Len(x) % 2 = 0
Bytes(x) == [i \in 1..(Len(x) \div 2) |-> 16 * Nib(x[2 * i - 1]) + Nib(x[2 * i])]
FixedBytes(x, n) == LET y == [i \in 1..(2 * n) |-> IF i <= 2 * n - Len(x) THEN 48 ELSE x[i - (2 * n - Len(x))]] IN Rev(Bytes(y))
Value(o, x) == IF Fixed(o.t) THEN FixedBytes(x, o.n)
    ELSE LET b == Bytes(x)
             c == SubSeq(b, 1, IF Len(b) < o.n THEN Len(b) ELSE o.n)
         IN IF Str(o.t) THEN CStr(c) ELSE c \o SubSeq(o.v, Len(c) + 1, o.n)

NotFound == <<0, 0>>
In(k, S) == {IF x = 0 THEN NotFound ELSE <<k, x>> : x \in S}
\* Lookup of a name in all stores
ByPrefix(d, p) ==
    LET ex == {k \in 1..Len(d.st) : d.st[k].pre = p}
        ab == {k \in 1..Len(d.st) : IsPrefix(p, d.st[k].pre)}
    IN IF ex # {} THEN ex ELSE IF Cardinality(ab) = 1 THEN ab ELSE {}
Lookup(d, s) ==
    IF s = <<>> THEN {NotFound}
    ELSE IF Len(s) = 1 /\ s[1] # Slash /\ s[1] \in DOMAIN d.al THEN {d.al[s[1]]}
    ELSE IF Len(d.st) = 0 THEN {NotFound}
    ELSE IF Len(d.st) = 1 THEN
        LET a == Results(d.st[1].objs, Scopes(s)) IN
        In(1, IF 0 \in a THEN a \cup Results(d.st[1].objs, Scopes(Tail(s))) ELSE a)
    ELSE LET k == Find1(CStr(s), Slash, 2) IN
        IF s[1] # Slash \/ k > Len(s) THEN {NotFound}
        ELSE UNION {In(x, Results(d.st[x].objs, Tail(Scopes(s)))) : x \in ByPrefix(d, SubSeq(s, 1, k - 1))}
            \cup (IF ByPrefix(d, SubSeq(s, 1, k - 1)) = {} THEN {NotFound} ELSE {})
Obj(d, x) == d.st[x[1]].objs[x[2]]

Ack == <<33>>
Nack == <<63>>
Out(r, d) == [r |-> r, d |-> d]
No(d) == {Out(Nack, d)}
Yes(d) == {Out(Ack, d)}
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
RECURSIVE SumLen(_, _)
SumLen(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN
    \* an address is 16 characters
    Len(f[x]) + 14 * Cardinality({i \in 1..Len(f[x]) : f[x][i] = 254}) + SumLen(f, S \ {x})
MacroSize(d) == SumLen(d.ma, DOMAIN d.ma)

RECURSIVE JoinSet(_, _, _)      \* names of the non-empty streams, in order of the name
JoinSet(S, lo, acc) == IF S = {} THEN acc ELSE LET x == CHOOSE y \in S : \A z \in S : y <= z IN JoinSet(S \ {x}, lo, Append(acc, x))
\* The stream exists afterwards; an empty stream may have to make place for it.
Alloc(d, s) == IF s \in DOMAIN d.sm THEN {d}
    ELSE IF Cardinality(DOMAIN d.sm) < d.c.streams THEN {[d EXCEPT !.sm = Put(@, s, <<>>)]}
    ELSE {[d EXCEPT !.sm = Put(Drop(@, e), s, <<>>)] : e \in {e \in DOMAIN d.sm : d.sm[e] = <<>>}}
Fits(d, s, n) == LET z == Len(d.sm[s]) IN
    IF z >= d.c.sbuf THEN 0 ELSE IF n < d.c.sbuf + d.c.sover - z THEN n ELSE d.c.sbuf + d.c.sover - z
\* the application writes to a stream; [n: accepted length, d]
Write(d, s, b) == IF s = 63 THEN {[n |-> 0, d |-> d]}
    ELSE IF Alloc(d, s) = {} THEN {[n |-> 0, d |-> d]}
    ELSE {LET n == Fits(x, s, Len(b)) IN [n |-> n, d |-> [x EXCEPT !.sm[s] = @ \o SubSeq(b, 1, n)]] : x \in Alloc(d, s)}

\* pieces of a list of objects: two digits of the type, size, name
Line(pre, o) == HexBytes(<<o.t>>) \o Trim(HexBytes(Rev(<<o.n % 256, (o.n \div 256) % 256, (o.n \div 65536) % 256>>))) \o pre
RECURSIVE JoinScopes(_)
JoinScopes(sc) == IF sc = <<>> THEN <<>> ELSE <<Slash>> \o sc[1] \o JoinScopes(Tail(sc))
Lines(d) == UNION {{Line(IF Len(d.st) = 1 /\ ~d.c.lpa THEN <<>> ELSE d.st[k].pre, d.st[k].objs[i]) \o JoinScopes(d.st[k].objs[i].sc)
    : i \in 1..Len(d.st[k].objs)} : k \in 1..Len(d.st)}
NofObjs(d) == LET RECURSIVE f(_)
                  f(k) == IF k = 0 THEN 0 ELSE Len(d.st[k].objs) + f(k - 1) IN f(Len(d.st))
\* a permutation of the lines
IsList(d, r) == IF NofObjs(d) = 0 THEN r = Nack
    ELSE /\ r # <<>> /\ r[Len(r)] = 10
         /\ LET L == SplitAt(SubSeq(r, 1, Len(r) - 1), 10) IN
            Len(L) = NofObjs(d) /\ {L[i] : i \in 1..Len(L)} = Lines(d)

\* Addresses of the memory are written as 254, offset.
MemRead(d, a, n) == SubSeq(d.mem, a + 1, a + n)
IsAddr(x) == Len(x) = 2 /\ x[1] = 254
RECURSIVE Number(_, _)
Number(x, acc) == IF x = <<>> THEN acc ELSE Number(Tail(x), acc * 16 + Nib(x[1]))
CmdR(d, q) ==       \* q: after the command
    IF q = <<>> THEN No(d) ELSE
    LET k == Find1(q, 32, IF Len(q) < 2 THEN Len(q) + 1 ELSE 3)
        a == SubSeq(q, 1, k - 1)
        l == Rest(q, k + 1)
        lenok == l = <<>> \/ (Len(l) <= 8 /\ IsHex(l))
        n == IF l = <<>> THEN d.c.word ELSE Number(l, 0)
    IN IF ~IsAddr(a) \/ ~lenok THEN No(d) ELSE IF n = 0 THEN No(d)
       ELSE {Out(HexBytes(MemRead(d, a[2], n)), d)}
CmdW(d, q) ==
    IF q = <<>> THEN No(d) ELSE
    LET k == Find1(q, 32, IF Len(q) < 2 THEN Len(q) + 1 ELSE 3)
        a == SubSeq(q, 1, k - 1)
        x == Rest(q, k + 1)
    IN IF ~IsAddr(a) \/ x = <<>> \/ Len(x) % 2 = 1 THEN No(d) ELSE IF ~IsHex(x) THEN No(d)
       ELSE LET b == Bytes(x) IN
            Yes([d EXCEPT !.mem = [i \in 1..Len(@) |-> IF i > a[2] /\ i <= a[2] + Len(b) THEN b[i - a[2]] ELSE @[i]]])

CmdRd(d, q) == {IF x = NotFound THEN Out(Nack, d) ELSE Out(Text(Obj(d, x)), d) : x \in Lookup(d, q)}
\* the name starts at the first '/', or is the last character
CmdWr(d, q) ==
    IF q = <<>> THEN No(d) ELSE
    LET k0 == Find1(q, Slash, 1)
        k == IF k0 > Len(q) THEN Len(q) ELSE k0
        x == SubSeq(q, 1, k - 1)
    IN UNION {IF y = NotFound THEN No(d) ELSE IF ~CanParse(Obj(d, y), x) THEN No(d)
              ELSE Yes([d EXCEPT !.st[y[1]].objs[y[2]].v = Value(Obj(d, y), x)]) : y \in Lookup(d, Rest(q, k))}
CmdA(d, q) ==
    IF q = <<>> THEN No(d) ELSE IF q[1] < 32 \/ q[1] > 126 \/ q[1] = Slash THEN No(d)
    ELSE IF Len(q) = 1 THEN Yes([d EXCEPT !.al = Drop(@, q[1])])
    ELSE UNION {IF y = NotFound THEN No(d)
                ELSE IF q[1] \notin DOMAIN d.al /\ Cardinality(DOMAIN d.al) >= d.c.alias THEN No(d)
                ELSE Yes([d EXCEPT !.al = Put(@, q[1], y)]) : y \in Lookup(d, Tail(q))}
CmdM(d, q, running) ==
    IF q = <<>> THEN No(d) ELSE IF q[1] \in running THEN No(d)
    ELSE IF Len(q) = 1 THEN Yes([d EXCEPT !.ma = Drop(@, q[1])])
    ELSE LET n == [d EXCEPT !.ma = Put(@, q[1], Tail(q))] IN IF MacroSize(n) > d.c.macro THEN No(d) ELSE Yes(n)
CmdS(d, q) ==
    IF q = <<>> THEN
        LET S == {s \in DOMAIN d.sm : d.sm[s] # <<>>} IN IF S = {} THEN No(d) ELSE {Out(JoinSet(S, 0, <<>>), d)}
    ELSE IF q[1] \notin DOMAIN d.sm THEN No(d)
    ELSE {Out(d.sm[q[1]] \o Tail(q), [d EXCEPT !.sm[q[1]] = <<>>])}
CmdT(d, q) ==
    LET off == [d EXCEPT !.tr.dec = 0] IN
    IF q = <<>> THEN Yes(off)
    ELSE IF Len(q) = 1 THEN No(off) \cup No(d)
    ELSE IF q[2] = 63 \/ Alloc(d, q[2]) = {} THEN No(off) \cup No(d)
    ELSE LET x == IF Len(q) > 10 THEN SubSeq(q, 3, 10) ELSE Rest(q, 3) IN
         UNION {IF x # <<>> /\ ~IsHex(x) THEN No([a EXCEPT !.tr.dec = 0]) \cup No(a)
                ELSE LET n == IF x = <<>> THEN 1 ELSE Number(x, 0) IN
                     UNION {Yes([a EXCEPT !.tr = [m |-> q[1], s |-> q[2], dec |-> n, cnt |-> k]]) : k \in {0, d.tr.cnt}}
                : a \in Alloc(d, q[2])}

Cmds == {63, 114, 119, 101, 108, 97, 109, 105, 118, 82, 87, 115, 116, 102}
RECURSIVE Proc(_, _, _), Seq_(_, _, _)
\* outcomes of the request q (not empty), where the given macros are being executed
Proc(d, q, running) == LET c == q[1]
                           a == Tail(q) IN
    IF c = 63 THEN {Out(d.c.caps, d)}
    ELSE IF c = 114 THEN CmdRd(d, a)
    ELSE IF c = 119 THEN CmdWr(d, a)
    ELSE IF c = 101 THEN {Out(a, d)}
    ELSE IF c = 97 THEN CmdA(d, a)
    ELSE IF c = 109 THEN CmdM(d, a, running)
    ELSE IF c = 105 THEN IF d.c.id = <<>> THEN No(d) ELSE {Out(d.c.id, d)}
    ELSE IF c = 118 THEN {Out(d.c.ver, d)}
    ELSE IF c = 82 THEN CmdR(d, a)
    ELSE IF c = 87 THEN CmdW(d, a)
    ELSE IF c = 115 THEN CmdS(d, a)
    ELSE IF c = 116 THEN CmdT(d, a)
    ELSE IF c = 102 THEN IF d.c.f /\ Len(a) <= 1 THEN Yes(d) ELSE No(d)       \* no streams are used with compression here
    ELSE IF c \in DOMAIN d.ma /\ c \notin running /\ c \notin Cmds THEN
        LET def == d.ma[c] IN Seq_(Out(<<>>, d), IF Len(def) = 1 THEN <<>> ELSE SplitAt(Tail(def), def[1]), running \cup {c})
    ELSE No(d)
\* commands one after another; the responses are concatenated
Seq_(o, qs, running) == IF qs = <<>> THEN {o}
    ELSE UNION {Seq_(Out(o.r \o p.r, p.d), Tail(qs), running) :
        p \in IF qs[1] = <<>> THEN {Out(<<>>, o.d)} ELSE Proc(o.d, qs[1], running)}
Request(d, q) == Proc(d, q, {})
\* the application calls trace()
Sample(d) == IF d.tr.dec = 0 THEN {d}
    ELSE IF d.tr.cnt + 1 < d.tr.dec THEN {[d EXCEPT !.tr.cnt = @ + 1]}
    ELSE LET e == [d EXCEPT !.tr.cnt = 0] IN
        IF Alloc(e, e.tr.s) = {} THEN {e}
        ELSE UNION {
            LET room == IF d.c.sover = 0 THEN Len(a.sm[a.tr.s]) < d.c.sbuf ELSE Fits(a, a.tr.s, d.c.sover) = d.c.sover IN
            IF ~room \/ a.tr.m \notin DOMAIN a.ma THEN {a}
            ELSE {[p.d EXCEPT !.sm[a.tr.s] = @ \o p.r] : p \in
                    LET def == a.ma[a.tr.m] IN Seq_(Out(<<>>, a), IF Len(def) = 1 THEN <<>> ELSE SplitAt(Tail(def), def[1]), {a.tr.m})}
            : a \in Alloc(e, e.tr.s)}
\* The response may be dropped and the request may be executed again without anybody noticing. Reading a function may have side effects.
Repeatable(d, q) == q[1] \in {63, 101, 108, 105, 118, 82} \/ (q[1] = 115 /\ Len(q) > 1 /\ d.tr.dec > 0 /\ q[2] = d.tr.s)
    \/ (q[1] = 114 /\ \E x \in Lookup(d, Tail(q)) : IF x = NotFound THEN TRUE ELSE ~Function(Obj(d, x).t))
================================================================================
