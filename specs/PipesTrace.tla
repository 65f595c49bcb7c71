------------------------------- MODULE PipesTrace -------------------------------
(* Recorded executions of networks of pipes are those of Pipes. *)
EXTENDS TraceLib, Pipes, Saturate
VARIABLES l, w, grp
vars == <<l, w, grp>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Norm(t, x) == IF t = "b" THEN IF x = 0 THEN 0 ELSE 1 ELSE x
Clean(x) == [x EXCEPT !.rec = <<>>]
Tin(p) == w.net[p].tin
Refs(net) == {p \in 1..Len(net) : net[p].kind = "ref"}
Init == l = 1 /\ w = World(<<>>) /\ grp = {}
Begin == /\ Is("init")
         /\ w' = World(E.net)
         /\ grp' = Refs(E.net)
         /\ E.rec = <<>>
\* y is the new world; all that has been recorded is what happened
To(y) == /\ w' = Clean(y)
         /\ E.rec = y.rec
         /\ UNCHANGED grp
Inject == /\ Is("inj")
          /\ LET r == Inj(w, E.p, Norm(Tin(E.p), E.x)) IN
             /\ To(r.w)
             /\ E.h => E.r = r.v
Extract == /\ Is("ext")
           /\ LET r == Ext(w, E.p) IN To(r.w) /\ E.r = r.v
Trigger == /\ Is("trg")
           /\ LET r == Trg(w, E.p) IN
              /\ To(r.w)
              /\ E.t = r.t
              /\ E.h => E.r = r.v
XCast == /\ Is("xc")
         /\ LET r == XFrom(w, E.p, 1, Norm(Tin(E.p), E.x)) IN To(r.w) /\ E.r = r.v
ECast == /\ Is("ec")
         /\ To(w)
         /\ E.r = EFrom(w, E.p, NSeg(w, E.p), Norm(w.net[E.p].tout, E.x))
B(b) == IF b THEN 1 ELSE 0
Compare == /\ Is("cmp")
           /\ LET r == Inj(w, E.p, Norm(Tin(E.p), E.x))
                  v == r.v
                  y == Norm(w.net[E.p].tout, E.y)
              IN /\ To(r.w)
                 /\ E.r = <<B(v = y), B(v # y), B(v > y), B(v < y), B(v >= y), B(v <= y),
                            B(y = v), B(y # v), B(y > v), B(y < v), B(y >= v), B(y <= v)>>
Con == Is("con") /\ To(Connect(w, E.p, E.q))
Extd == Is("extend") /\ To(Extend(w, E.p, E.q))
Dis == Is("dis") /\ To(Disconnect(w, E.p))
Conn == /\ Is("conn")
        /\ E.r = w.fwd[E.p]
        /\ UNCHANGED <<w, grp>>
Obj == /\ Is("obj")
       /\ w' = [w EXCEPT !.obj[E.i] = E.x]
       /\ UNCHANGED grp
Tick == /\ Is("tick")
        /\ w' = [w EXCEPT !.now = @ + E.d]
        /\ UNCHANGED grp
Ran(s) == {s[i] : i \in 1..Len(s)}
Group == /\ Is("gt")
         /\ Ran(E.o) = grp
         /\ Len(E.o) = E.n
         /\ LET r == TrgAll(w, E.o, 1) IN To(r.w) /\ E.t = r.t
Cardinal(S) == Len(SelectSeq([i \in 1..Len(w.net) |-> i], LAMBDA i : i \in S))
GAdd == /\ Is("ga")
        /\ grp' = grp \union {E.p}
        /\ E.n = Cardinal(grp')
        /\ UNCHANGED w
GRem == /\ Is("gr")
        /\ grp' = grp \ {E.p}
        /\ E.n = Cardinal(grp')
        /\ UNCHANGED w
Cast == /\ Is("sat")
        /\ LET r == Sat(E.to, E.neg, E.d, E.half) IN E.rneg = r.neg /\ E.rd = r.d /\ ~E.rhalf
        /\ UNCHANGED <<w, grp>>
Next == Begin \/ Inject \/ Extract \/ Trigger \/ XCast \/ ECast \/ Compare \/ Con \/ Extd \/ Dis \/ Conn \/ Obj \/ Tick \/ Group \/ GAdd \/ GRem \/ Cast
Spec == Init /\ [][Next]_vars
================================================================================
