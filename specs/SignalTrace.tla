------------------------------- MODULE SignalTrace -------------------------------
(* Conformance of signals and callables (C18). *)
EXTENDS Signal, TraceLib
VARIABLES l, cs, own, slots
vars == <<l, cs, own, slots>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Empty == [id |-> 0, fn |-> -1, cnt |-> FALSE]
\* own: what belongs to an id: if it counts its copies; fn: which plain function (these know the last id only)
Init == l = 1 /\ cs = <<>> /\ own = <<>> /\ slots = [i \in 1..3 |-> Empty]
TrInit == Is("init") /\ cs' = <<>> /\ own' = <<>> /\ slots' = [i \in 1..3 |-> Empty] /\ E.al = 0
RECURSIVE Counting(_)
Counting(s) == IF s = <<>> THEN 0 ELSE (IF own'[Head(s).id].cnt THEN 1 ELSE 0) + Counting(Tail(s))
\* no callable is kept longer than its connection
Al == E.al = Counting(cs')
TrConn == Is("conn") /\ cs' = Connect(cs, E.k, E.t, E.id) /\ own' = Append(own, [cnt |-> E.cnt, fn |-> E.fn]) /\ E.id = Len(own') /\ UNCHANGED slots /\ Al
TrDisc == Is("disc") /\ cs' = Disconnect(cs, E.how, E.k, E.t) /\ UNCHANGED <<own, slots>> /\ Al
\* the id that a plain function reports
Last(fn) == CHOOSE i \in 1..Len(own) : own[i].fn = fn /\ \A j \in i+1..Len(own) : own[j].fn # fn
Rep(i) == IF own[i].fn < 0 THEN i ELSE Last(own[i].fn)
TrCall ==
    /\ Is("call") /\ UNCHANGED <<cs, own, slots>>
    /\ LET c == Called(cs, E.k)
           x == [i \in 1..Len(c) |-> [id |-> Rep(c[i].id)]]
       IN SameBag(x, E.r)
    /\ \A i \in 1..Len(E.r) : E.r[i].s = E.s /\ E.r[i].x = E.x
    /\ Al
TrConnd == Is("connd") /\ UNCHANGED <<cs, own, slots>> /\ E.r = (Called(cs, E.k) # <<>>)
TrSlot ==
    /\ Is("slot") /\ UNCHANGED <<cs, own>>
    /\ slots' = CASE E.op = "set" -> [slots EXCEPT ![E.i] = [id |-> E.id, fn |-> E.fn, cnt |-> E.cnt]]
                  [] E.op = "copy" -> [slots EXCEPT ![E.i] = slots[E.j]]
                  [] E.op = "move" -> [slots EXCEPT ![E.i] = slots[E.j], ![E.j] = Empty]
                  [] OTHER -> [slots EXCEPT ![E.i] = Empty]
    /\ \A i \in 1..3 : LET s == slots'[i] c == E.c[i] IN
        IF s.id = 0 THEN ~c.b /\ c.threw /\ c.r = <<>>
        ELSE c.b /\ ~c.threw /\ Len(c.r) = 1 /\ (s.fn < 0 => c.r[1].id = s.id) /\ c.r[1].s = <<118>> /\ c.r[1].x = 7
    /\ TRUE
TrEnd == Is("end") /\ UNCHANGED <<cs, own, slots>> /\ E.al = 0
Next == TrInit \/ TrConn \/ TrDisc \/ TrCall \/ TrConnd \/ TrSlot \/ TrEnd
Spec == Init /\ [][Next]_vars
================================================================================
