------------------------------ MODULE StreamZTrace ------------------------------
(* Conformance of recorded executions of stored::Debugger with compressed streams. *)
EXTENDS StreamZ, TraceLib
VARIABLES l, d, z
vars == <<l, d, z>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Nothing == [c |-> [alias |-> 0], st |-> <<>>, al |-> <<>>, ma |-> <<>>, sm |-> <<>>, tr |-> [m |-> 0, s |-> 0, dec |-> 0, cnt |-> 0], mem |-> <<>>]
Init == l = 1 /\ d = Nothing /\ z = <<>>
TrInit == Is("init") /\ d' = [Nothing EXCEPT !.c = E.c, !.st = E.st, !.mem = E.mem] /\ z' = <<>>
TrMap == Is("map") /\ d' = [d EXCEPT !.st = [k \in 1..Len(E.st) |-> [pre |-> E.st[k].pre, id |-> E.st[k].id, objs |-> E.st[k].objs]], !.al = <<>>]
                  /\ UNCHANGED z
Perm(a, b) == Len(a) = Len(b) /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}
TrReq == /\ Is("q")
    /\ E.n = 1
    /\ TRUE = (E.p => E.q[1] # 115 /\ Repeatable(d, E.q))
    /\ IF E.q[1] = 63 THEN TRUE = Perm(E.r, d.c.caps) /\ UNCHANGED <<d, z>>
       ELSE \E o \in ZRequest(d, z, E.q, E.r) : d' = o.d /\ z' = o.z
TrWrite == Is("w") /\ UNCHANGED d /\ \E y \in ZWrite(d.c, z, E.s, E.b, E.n) : z' = y
TrTrace == Is("t") /\ \E o \in ZSample(d, z) : d' = o.d /\ z' = o.z
TrDump == Is("dump") /\ UNCHANGED <<d, z>>
    /\ TRUE = \A k \in 1..Len(E.v) : \A i \in 1..Len(E.v[k].v) : E.v[k].v[i] = d.st[k].objs[i].v
TrAcc == Is("tracing") /\ UNCHANGED <<d, z>> /\ E.on = (d.tr.dec > 0)
Next == TrInit \/ TrMap \/ TrReq \/ TrWrite \/ TrTrace \/ TrDump \/ TrAcc
Spec == Init /\ [][Next]_vars
================================================================================
