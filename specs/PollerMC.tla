-------------------------------- MODULE PollerMC --------------------------------
(* The bookkeeping of a poller: parallel lists of pollables and items for the operating
   system, where removing moves the last into the gap, and adding several rolls back when
   one fails. It refines a set of registered pollables. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS P, Bad, Depth, Swap, Reset
\* Bad: pollables that cannot be added. Swap: also move the item. Reset: poll resets all returned events.
VARIABLES pols, items, rev, reg, pending, result
\* implementation: pols, items (of which pollable the item is), rev (returned events);
\* reg: what should be registered; pending: pollables with something pending; result: of the last poll
vars == <<pols, items, rev, reg, pending, result>>
Init == /\ pols = <<>>
        /\ items = <<>>
        /\ rev = [p \in P |-> FALSE]
        /\ reg = {}
        /\ pending = {}
        /\ result = <<{}, {}>>
Ran(s) == {s[i] : i \in 1..Len(s)}
Idx(s, p) == CHOOSE i \in 1..Len(s) : s[i] = p
Cut(s, i) == IF i = Len(s) THEN SubSeq(s, 1, Len(s) - 1) ELSE [j \in 1..(Len(s) - 1) |-> IF j = i THEN s[Len(s)] ELSE s[j]]
Chop(s) == SubSeq(s, 1, Len(s) - 1)
Rem(l, p) == IF p \notin Ran(l[1]) THEN l
             ELSE LET i == Idx(l[1], p) IN <<Cut(l[1], i), IF Swap THEN Cut(l[2], i) ELSE Chop(l[2])>>
RECURSIVE RemAll(_, _, _)
RemAll(l, s, n) == IF n = 0 THEN l ELSE RemAll(Rem(l, s[1]), Tail(s), n - 1)
\* <<lists, how many have been added>>
RECURSIVE AddAll(_, _, _)
AddAll(l, s, n) == IF n >= Len(s) THEN <<l, n>>
    ELSE IF s[n + 1] \in Bad THEN <<l, n>>
    ELSE AddAll(<<Append(l[1], s[n + 1]), Append(l[2], s[n + 1])>>, s, n + 1)
Add(s) == /\ \A i \in 1..Len(s) : s[i] \notin reg
          /\ LET a == AddAll(<<pols, items>>, s, 0)
                 l == IF a[2] = Len(s) THEN a[1] ELSE RemAll(a[1], s, a[2])
             IN pols' = l[1] /\ items' = l[2]
          /\ reg' = IF Ran(s) \intersect Bad = {} THEN reg \union Ran(s) ELSE reg
          /\ UNCHANGED <<rev, pending, result>>
Remove(p) == /\ LET l == Rem(<<pols, items>>, p) IN pols' = l[1] /\ items' = l[2]
             /\ reg' = reg \ {p}
             /\ UNCHANGED <<rev, pending, result>>
Clear == /\ pols' = <<>>
         /\ items' = <<>>
         /\ reg' = {}
         /\ UNCHANGED <<rev, pending, result>>
Toggle(p) == /\ pending' = (pending \ {p}) \union ({p} \ pending)
             /\ UNCHANGED <<pols, items, rev, reg, result>>
\* the items of the operating system tell which indices have something pending
Poll == LET hit == {i \in 1..Len(items) : items[i] \in pending}
            last == IF hit = {} THEN 0 ELSE CHOOSE i \in hit : \A j \in hit : j <= i
            seen == IF Reset THEN 1..Len(items) ELSE 1..last
        IN /\ rev' = [p \in P |-> IF \E i \in seen : pols[i] = p THEN \E i \in hit : pols[i] = p ELSE rev[p]]
           /\ result' = <<{pols[i] : i \in hit}, {p \in reg : p \in pending}>>
           /\ UNCHANGED <<pols, items, reg, pending>>
           /\ \A p \in reg : rev'[p] = (p \in pending)
Lists == {s \in UNION {[1..n -> P] : n \in 1..3} : Cardinality(Ran(s)) = Len(s)}
Next == (\E s \in Lists : Add(s)) \/ (\E p \in P : Remove(p) \/ Toggle(p)) \/ Clear \/ Poll
Spec == Init /\ [][Next]_vars
Refines == /\ Ran(pols) = reg
           /\ Len(pols) = Cardinality(reg)
           /\ items = pols
Reported == result[1] = result[2]
\* polling is always possible, and leaves the returned events of all registered pollables up to date
Polls == ENABLED Poll
================================================================================
