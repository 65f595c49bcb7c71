--------------------------------- MODULE Signal ---------------------------------
(* Signals (C18): a bag of connections of (key, token); key 0 is 'no key'. *)
EXTENDS Integers, Sequences
\* Connections after an operation
Connect(cs, k, t, id) == Append(cs, [k |-> k, t |-> t, id |-> id])
Gone(how, k, t, c) == \/ how = "all"
                      \/ how = "key" /\ c.k = k
                      \/ how = "tok" /\ c.k = k /\ c.t = t
Disconnect(cs, how, k, t) == LET Test(c) == ~Gone(how, k, t, c) IN SelectSeq(cs, Test)
\* Connections that are called: those of the key, or all
Called(cs, k) == LET Test(c) == k = 0 \/ c.k = k IN SelectSeq(cs, Test)
\* Number of elements in s for which the id is id
RECURSIVE CountId(_, _)
CountId(s, id) == IF s = <<>> THEN 0 ELSE (IF Head(s).id = id THEN 1 ELSE 0) + CountId(Tail(s), id)
\* Same ids, in any order
SameBag(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in 1..Len(a) : CountId(a, a[i].id) = CountId(b, a[i].id)
================================================================================
