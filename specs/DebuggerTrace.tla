----------------------------- MODULE DebuggerTrace -----------------------------
(* Conformance of recorded executions of stored::Debugger. *)
EXTENDS Debugger, TraceLib
VARIABLES l, d
vars == <<l, d>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Nothing == [c |-> [alias |-> 0], st |-> <<>>, al |-> <<>>, ma |-> <<>>, sm |-> <<>>, tr |-> [m |-> 0, s |-> 0, dec |-> 0, cnt |-> 0], mem |-> <<>>]
Init == l = 1 /\ d = Nothing
TrInit == Is("init") /\ d' = [Nothing EXCEPT !.c = E.c, !.st = E.st, !.mem = E.mem]
\* mapping of stores; aliases to an unmapped store are not used
TrMap == Is("map") /\ d' = [d EXCEPT !.st = [k \in 1..Len(E.st) |-> [pre |-> E.st[k].pre, id |-> E.st[k].id, objs |->
            LET old == {j \in 1..Len(d.st) : d.st[j].id = E.st[k].id} IN
            IF old = {} THEN E.st[k].objs ELSE d.st[CHOOSE j \in old : TRUE].objs]], !.al = <<>>]
\* exactly one complete response
One == E.n = 1
Perm(a, b) == Len(a) = Len(b) /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}
TrReq == /\ Is("q")
    /\ IF E.q = <<>> THEN E.n = 0 /\ d' = d
       ELSE /\ One
            /\ TRUE = (E.p => Repeatable(d, E.q))
            /\ IF E.q[1] = 108 THEN TRUE = IsList(d, E.r) /\ d' = d
               ELSE IF E.q[1] = 63 THEN TRUE = Perm(E.r, d.c.caps) /\ d' = d
               ELSE \E o \in Request(d, E.q) : o.r = E.r /\ d' = o.d
TrWrite == Is("w") /\ \E o \in Write(d, E.s, E.b) : o.n = E.n /\ d' = o.d
TrTrace == Is("t") /\ \E o \in {x \in Sample(d) : TRUE} : d' = o
\* all values, in order of the definition
TrDump == Is("dump") /\ UNCHANGED d
    /\ E.mem = d.mem
    /\ TRUE = \A k \in 1..Len(E.v) : \A j \in 1..Len(d.st) : d.st[j].id = E.v[k].id =>
        /\ Len(E.v[k].v) = Len(d.st[j].objs)
        /\ \A i \in 1..Len(E.v[k].v) : E.v[k].v[i] = d.st[j].objs[i].v
TrAcc == Is("tracing") /\ UNCHANGED d /\ E.on = (d.tr.dec > 0)
Next == TrInit \/ TrMap \/ TrReq \/ TrWrite \/ TrTrace \/ TrDump \/ TrAcc
Spec == Init /\ [][Next]_vars
================================================================================
