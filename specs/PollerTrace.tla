------------------------------- MODULE PollerTrace -------------------------------
EXTENDS TraceLib, Poller
VARIABLES l, b, res, pol, reg
\* res: the resources; pol: pollables [r, t, ev]; reg: the registered ones, with the events they are registered for
vars == <<l, b, res, pol, reg>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Ran(s) == {s[i] : i \in 1..Len(s)}
Empty == [x \in {} |-> 0]
Set(f, x, y) == [z \in DOMAIN f \union {x} |-> IF z = x THEN y ELSE f[z]]
Del(f, S) == [z \in DOMAIN f \ S |-> f[z]]
Init == l = 1 /\ b = "" /\ res = Empty /\ pol = Empty /\ reg = Empty
Begin == /\ Is("init")
         /\ b' = E.b
         /\ res' = Empty
         /\ pol' = Empty
         /\ reg' = Empty
NewRes == /\ Is("res")
          /\ res' = Set(res, E.r, [k |-> E.k, n |-> 0, open |-> TRUE, cb |-> {}, x |-> FALSE])
          /\ UNCHANGED <<b, pol, reg>>
NewPol == /\ Is("p")
          /\ pol' = Set(pol, E.p, [r |-> E.r, t |-> E.t, ev |-> Ran(E.ev)])
          /\ UNCHANGED <<b, res, reg>>
Upd(r) == /\ res' = [res EXCEPT ![E.r] = r]
          /\ UNCHANGED <<b, pol, reg>>
Write == Is("w") /\ Upd([res[E.r] EXCEPT !.n = @ + 1])
Read == Is("r") /\ Upd([res[E.r] EXCEPT !.n = 0])
Fill == Is("f") /\ Upd([res[E.r] EXCEPT !.n = 1])
Close == Is("c") /\ Upd([res[E.r] EXCEPT !.open = FALSE])
Callback == Is("cb") /\ Upd([res[E.r] EXCEPT !.cb = Ran(E.ev), !.x = E.x])
\* all or none
AllOk(s) == \A i \in 1..Len(s) : Accepts(b, pol[s[i]].t)
With(f, s) == [z \in DOMAIN f \union Ran(s) |-> IF z \in Ran(s) THEN pol[z].ev ELSE f[z]]
Add == /\ Is("add")
       /\ E.res = IF AllOk(E.l) THEN "0" ELSE "EINVAL"
       /\ reg' = IF AllOk(E.l) THEN With(reg, E.l) ELSE reg
       /\ UNCHANGED <<b, res, pol>>
Ctor == /\ Is("ctor")
        /\ E.ok = AllOk(E.l)
        /\ reg' = IF AllOk(E.l) THEN With(Empty, E.l) ELSE Empty
        /\ UNCHANGED <<b, res, pol>>
Rem == /\ Is("rem")
       /\ E.res = IF E.p \in DOMAIN reg THEN "0" ELSE "ESRCH"
       /\ reg' = Del(reg, {E.p})
       /\ UNCHANGED <<b, res, pol>>
Clear == /\ Is("clr")
         /\ reg' = Empty
         /\ UNCHANGED <<b, res, pol>>
IsEmpty == /\ Is("empty")
           /\ E.x = (DOMAIN reg = {})
           /\ UNCHANGED <<b, res, pol, reg>>
\* the deprecated interface
OldAdd == /\ Is("oadd")
          /\ E.res = "0"
          /\ reg' = Set(reg, E.p, Ran(E.ev))
          /\ UNCHANGED <<b, res, pol>>
OldMod == /\ Is("omod")
          /\ E.res = IF E.p \in DOMAIN reg THEN "0" ELSE "ESRCH"
          /\ reg' = IF E.p \in DOMAIN reg THEN [reg EXCEPT ![E.p] = Ran(E.ev)] ELSE reg
          /\ UNCHANGED <<b, res, pol>>
OldRem == /\ Is("orem")
          /\ E.res = IF E.p \in DOMAIN reg THEN "0" ELSE "ESRCH"
          /\ reg' = Del(reg, {E.p})
          /\ UNCHANGED <<b, res, pol>>
Rep(p) == Report(b, pol[p].t, reg[p], res[pol[p].r])
Fail == UNION {Fails(b, pol[p].t, res[pol[p].r]) : p \in DOMAIN reg}
Exp == {p \in DOMAIN reg : Rep(p) # {}}
Poll == /\ Is("poll")
        /\ UNCHANGED <<b, res, pol, reg>>
        /\ IF Fail # {} THEN E.no \in Fail /\ E.r = <<>>
           ELSE /\ E.no = IF Exp = {} THEN "EAGAIN" ELSE "0"
                /\ Len(E.r) = Cardinality(Exp)
                /\ {E.r[i].p : i \in 1..Len(E.r)} = Exp
                /\ \A i \in 1..Len(E.r) : E.r[i].same /\ Ran(E.r[i].rev) = Rep(E.r[i].p) /\ Ran(E.r[i].ev) = reg[E.r[i].p]
                \* no events of an earlier poll are left behind
                /\ \A i \in 1..Len(E.rev) : E.rev[i].p \in DOMAIN reg /\ E.rev[i].p \notin Exp => E.rev[i].rev = <<>>
Next == Begin \/ NewRes \/ NewPol \/ Write \/ Read \/ Fill \/ Close \/ Callback \/ Add \/ Ctor \/ Rem \/ Clear \/ IsEmpty \/ OldAdd \/ OldMod \/ OldRem \/ Poll
Spec == Init /\ [][Next]_vars
================================================================================
