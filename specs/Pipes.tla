--------------------------------- MODULE Pipes ---------------------------------
(* Pipes (include/libstored/pipes.h): networks of segments, through which values are
   injected, extracted and triggered.

   A world w is a record:
     net  the network: for each pipe [kind, tin, tout, segs], for each segment
          [k |-> kind, a |-> parameters, q |-> other pipes it refers to].
     st   the state of each segment of each pipe.
     fwd  the pipe that is connected to the exit of each pipe, 0 when there is none.
     obj  values of the store objects that get/set segments refer to; object 4 is invalid.
     now  the clock.
     rec  what callbacks, loggers, and signals have seen, in order: <<who, value>>.
   A pipe only refers and forwards to pipes with a higher number.

   All operators give a record with the value v and the new world w. *)
EXTENDS Naturals, Integers, Sequences
LOCAL Mn(a, b) == IF a < b THEN a ELSE b
LOCAL Mx(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
Start == 100000
InitSt(s) == CASE s.k = "buf" -> <<s.a[1]>>
               [] s.k = "trg" -> <<s.a[1], 0>>      \* value, changed
               [] s.k = "chg" -> <<s.a[1]>>         \* previous
               [] s.k = "rate" -> <<s.a[1], 0, 0>>  \* value, changed, suppressed until
               [] s.k = "mux" -> <<0>>              \* selected
               [] OTHER -> <<>>
World(net) == [net |-> net, st |-> [p \in 1..Len(net) |-> [i \in 1..Len(net[p].segs) |-> InitSt(net[p].segs[i])]],
    fwd |-> [p \in 1..Len(net) |-> 0], obj |-> <<0, 0, 0, 0>>, now |-> Start, rec |-> <<>>]
R(x, y) == [v |-> x, w |-> y]
Note(w, who, x) == [w EXCEPT !.rec = Append(@, <<who, x>>)]
Seg(w, p, i) == w.net[p].segs[i]
NSeg(w, p) == Len(w.net[p].segs)
SetSt(w, p, i, s) == [w EXCEPT !.st[p][i] = s]
\* values of which the difference is not larger than the margin, are the same
Same(m, x, y) == Abs(x - y) <= m
Clamp(lo, hi, x) == Mx(lo, Mn(hi, x))
Huge(x) == x > 1000000 \/ x < -1000000
\* x * n / d, rounded half away from zero
Scl(n, d, x) == LET m == Abs(x * n) r == (2 * m + d) \div (2 * d) IN IF x < 0 THEN -r ELSE r
RECURSIVE Find(_, _, _)
Find(a, k, i) == IF i > Len(a) THEN a[2] ELSE IF a[i] = k THEN a[i + 1] ELSE Find(a, k, i + 2)
RECURSIVE RFind(_, _, _)
RFind(a, v, i) == IF i > Len(a) THEN a[1] ELSE IF a[i + 1] = v THEN a[i] ELSE RFind(a, v, i + 2)
RECURSIVE IRFind(_, _, _)
IRFind(a, v, i) == IF i > Len(a) THEN 0 ELSE IF a[i] = v THEN i - 1 ELSE IRFind(a, v, i + 1)
\* a signal with one callback for key 1, two for key 2, and one without key
Calls(k) == CASE k = 0 -> 4 [] k = 1 -> 1 [] k = 2 -> 2 [] OTHER -> 0
RECURSIVE Sig(_, _, _)
Sig(w, n, x) == IF n = 0 THEN w ELSE Sig(Note(w, 1000, x), n - 1, x)
\* pure conversions: what inject() and exit_cast() have in common
Conv(s, x) == CASE s.k = "cast" -> Clamp(-128, 127, x)
                [] s.k = "castb" -> IF x = 0 THEN 0 ELSE 1
                [] s.k = "castz" -> Mx(0, x)
                [] s.k = "bnd" -> Clamp(s.a[1], s.a[2], x)
                [] s.k \in {"omap", "rmap"} -> Find(s.a, x, 1)
                [] s.k = "imap" -> IF x < Len(s.a) THEN s.a[x + 1] ELSE s.a[1]
                [] s.k = "conv" -> IF Huge(x) THEN 0 ELSE x + s.a[1]
                [] s.k = "scl" -> Scl(s.a[1], s.a[2], x)
                [] OTHER -> x
\* entry_cast: from the exit to the entry
Entry(s, x) == CASE s.k = "conv" -> IF Huge(x) THEN 0 ELSE x - s.a[1]
                 [] s.k = "castc" -> Clamp(-128, 127, x)
                 [] s.k \in {"omap", "rmap"} -> RFind(s.a, x, 1)
                 [] s.k = "imap" -> IRFind(s.a, x, 1)
                 [] s.k = "scl" -> Scl(s.a[2], s.a[1], x)
                 [] s.k \in {"mux", "get"} -> 0
                 [] OTHER -> x
HasExtract(s) == s.k \in {"buf", "trg", "get", "set", "mux"}
HasTrigger(s) == s.k \in {"trg", "get", "mux", "rate"}
Extracts(w, p) == {i \in 1..NSeg(w, p) : HasExtract(Seg(w, p, i))}
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Inj(_, _, _), InjSeg(_, _, _, _), InjFrom(_, _, _, _), InjAll(_, _, _, _),
          Ext(_, _), ExtSeg(_, _, _), XFrom(_, _, _, _), TrgSegs(_, _, _), TrgSeg(_, _, _), Trg(_, _)
\* inject x in the pipes q[i], q[i+1], ...
InjAll(w, q, i, x) == IF i > Len(q) THEN w ELSE InjAll(Inj(w, q[i], x).w, q, i + 1, x)
InjSeg(w, p, i, x) == LET s == Seg(w, p, i) st == w.st[p][i] IN
    CASE s.k = "buf" -> R(x, SetSt(w, p, i, <<x>>))
      [] s.k = "log" -> R(x, Note(w, s.a[1], x))
      [] s.k = "tee" -> R(x, InjAll(w, s.q, 1, x))
      [] s.k = "trg" -> R(x, SetSt(w, p, i, <<x, IF st[2] = 1 \/ ~Same(s.a[2], st[1], x) THEN 1 ELSE 0>>))
      [] s.k = "tra" -> LET g == Ext(w, s.q[1]) IN R(IF (g.v # 0) = (s.a[1] = 0) THEN x ELSE 0, g.w)
      [] s.k = "cv" -> R(x, Note(w, s.a[1], x))
      [] s.k = "cr" -> R(IF Huge(x) THEN 0 ELSE x + s.a[1], w)
      [] s.k = "cf" -> R(IF Huge(x) THEN 0 ELSE s.a[1] - x, w)
      [] s.k = "set" -> R(x, IF s.a[1] = 4 THEN w ELSE [w EXCEPT !.obj[s.a[1]] = x])
      [] s.k = "get" -> R(w.obj[s.a[1]], w)
      [] s.k = "chg" -> R(x, IF Same(s.a[2], st[1], x) THEN w ELSE Inj(SetSt(w, p, i, <<x>>), s.q[1], x).w)
      [] s.k = "rate" -> R(x, IF Same(s.a[2], st[1], x) THEN w
                              ELSE IF st[3] < w.now THEN Inj(SetSt(w, p, i, <<x, 0, w.now + s.a[3]>>), s.q[1], x).w
                              ELSE SetSt(w, p, i, <<x, 1, st[3]>>))
      [] s.k = "mux" -> ExtSeg(SetSt(w, p, i, <<x>>), p, i)
      [] s.k = "sig" -> R(x, Sig(w, Calls(s.a[1]), x))
      [] OTHER -> R(Conv(s, x), w)
InjFrom(w, p, i, x) == IF i > NSeg(w, p) THEN R(x, w) ELSE LET r == InjSeg(w, p, i, x) IN InjFrom(r.w, p, i + 1, r.v)
Forward(w, p, x) == IF w.fwd[p] = 0 THEN w ELSE Inj(w, w.fwd[p], x).w
Inj(w, p, x) == LET r == InjFrom(w, p, 1, x) IN R(r.v, Forward(r.w, p, r.v))
ExtSeg(w, p, i) == LET s == Seg(w, p, i) IN
    CASE s.k \in {"buf", "trg"} -> R(w.st[p][i][1], w)
      [] s.k \in {"get", "set"} -> R(w.obj[s.a[1]], w)
      [] s.k = "mux" -> IF Len(s.q) = 1 THEN Ext(w, s.q[1]) ELSE IF w.st[p][i][1] < Len(s.q) THEN Ext(w, s.q[w.st[p][i][1] + 1]) ELSE R(0, w)
\* a value goes on to the exit without side effects
XSeg(w, p, i, x) == LET s == Seg(w, p, i) IN
    IF s.k = "sig" THEN R(x, Sig(w, Calls(s.a[1]), x))
    ELSE R(IF s.k \in {"mux", "get"} THEN 0 ELSE Conv(s, x), w)
XFrom(w, p, i, x) == IF i > NSeg(w, p) THEN R(x, w) ELSE LET r == XSeg(w, p, i, x) IN XFrom(r.w, p, i + 1, r.v)
Ext(w, p) == IF Extracts(w, p) = {} THEN XFrom(w, p, 2, 0)
             ELSE LET n == MaxOf(Extracts(w, p)) r == ExtSeg(w, p, n) IN XFrom(r.w, p, n + 1, r.v)
\* triggering: [v, w, t], t tells that there is something new
T3(x, y, z) == [v |-> x, w |-> y, t |-> z]
TrgSeg(w, p, i) == LET s == Seg(w, p, i) st == w.st[p][i] IN
    CASE s.k = "trg" -> T3(st[1], IF st[2] = 1 THEN InjAll(SetSt(w, p, i, <<st[1], 0>>), s.q, 1, st[1]) ELSE w, st[2] = 1)
      [] s.k = "get" -> T3(w.obj[s.a[1]], w, TRUE)
      [] s.k = "mux" -> LET n == IF Len(s.q) = 1 THEN 0 ELSE st[1] IN IF n < Len(s.q) THEN Trg(w, s.q[n + 1]) ELSE T3(0, w, FALSE)
      [] s.k = "rate" -> IF st[2] = 1 /\ st[3] < w.now
                         THEN T3(st[1], Inj(SetSt(w, p, i, <<st[1], 0, st[3]>>), s.q[1], st[1]).w, TRUE)
                         ELSE T3(st[1], w, FALSE)
TrgSegs(w, p, n) ==
    IF \E i \in 1..(n - 1) : HasTrigger(Seg(w, p, i))
    THEN LET r == TrgSegs(w, p, n - 1)
             y == IF r.t THEN InjSeg(r.w, p, n, r.v) ELSE XSeg(r.w, p, n, r.v)
         IN T3(y.v, y.w, r.t)
    ELSE IF n > 0 /\ HasTrigger(Seg(w, p, n)) THEN TrgSeg(w, p, n)
    ELSE T3(0, w, FALSE)
Trg(w, p) == LET r == TrgSegs(w, p, NSeg(w, p)) IN IF r.t THEN T3(r.v, Forward(r.w, p, r.v), TRUE) ELSE r
Connect(w, p, q) == LET x == [w EXCEPT !.fwd[p] = q]
                        e == Ext(x, p)
                    IN IF Extracts(w, p) = {} THEN x ELSE Forward(e.w, p, e.v)
Disconnect(w, p) == [w EXCEPT !.fwd[p] = 0]
Extend(w, p, q) == Connect(IF w.fwd[p] # 0 THEN Connect(w, q, w.fwd[p]) ELSE Disconnect(w, q), p, q)
RECURSIVE EFrom(_, _, _, _)
EFrom(w, p, i, x) == IF i = 0 THEN x ELSE EFrom(w, p, i - 1, Entry(Seg(w, p, i), x))
RECURSIVE TrgAll(_, _, _)
TrgAll(w, o, i) == IF i > Len(o) THEN T3(0, w, FALSE)
    ELSE LET r == Trg(w, o[i]) z == TrgAll(r.w, o, i + 1) IN T3(0, z.w, r.t \/ z.t)
================================================================================
