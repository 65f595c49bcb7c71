--------------------------------- MODULE SpscMC ---------------------------------
(* The ring of a Fifo between a producer and a consumer thread on weakly ordered memory, at the
   granularity of single accesses. Every atomic keeps its modification order; a load may return any
   modification that is not superseded for its thread. A slot holds the element and the epochs of the
   accesses, to detect data races. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS
    N,          \* slots (one more than the capacity)
    K,          \* elements put
    RelW, AcqW, \* release and acquire of the write position
    RelR, AcqR, \* release and acquire of the read position
    Batch       \* how many elements can be handled at once
VARIABLES vc, wp, rp, seen, slot, pw, next, cr, cnt, todo, race, order
vars == <<vc, wp, rp, seen, slot, pw, next, cr, cnt, todo, race, order>>
P == 1
C == 2
T == {P, C}
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [t \in T |-> Max(a[t], b[t])]
Zero == [t \in T |-> 0]
(* wp, rp: histories of [v: position, c: epoch of the writer, r: clock that is released];
   pw: what the producer is doing: 0, or the number of elements to write; cr: likewise for the consumer *)
Init ==
    /\ vc = [t \in T |-> [Zero EXCEPT ![t] = 1]]
    /\ wp = <<[v |-> 0, c |-> 0, r |-> Zero]>> /\ rp = wp
    /\ seen = [t \in T |-> 1] \* of the position of the other
    /\ slot = [i \in 0..N - 1 |-> [v |-> 0, w |-> 0, r |-> 0]]
    /\ pw = 0 /\ next = 1 /\ cr = 0 /\ cnt = 0 /\ todo = [t \in T |-> 0] /\ race = FALSE /\ order = TRUE
\* modifications by the other that t may see; i: index
Visible(t, h) == {i \in seen[t]..Len(h) : \A j \in i + 1..Len(h) : h[j].c > vc[t][3 - t]}
Last(h) == h[Len(h)]
\* the producer looks for space
PLoad ==
    /\ pw = 0 /\ next <= K
    /\ \E i \in Visible(P, rp) :
        LET free == (rp[i].v - Last(wp).v - 1 + N) % N IN
        /\ seen' = [seen EXCEPT ![P] = i]
        /\ vc' = IF AcqR THEN [vc EXCEPT ![P] = Join(@, rp[i].r)] ELSE vc
        /\ \E n \in 0..Batch : n <= free /\ n <= K + 1 - next /\ pw' = n /\ todo' = [todo EXCEPT ![P] = n]
    /\ UNCHANGED <<wp, rp, slot, next, cr, cnt, race, order>>
PWrite ==
    /\ todo[P] > 0
    /\ LET p == (Last(wp).v + pw - todo[P]) % N IN
        /\ race' = (race \/ slot[p].r > vc[P][C])
        /\ slot' = [slot EXCEPT ![p] = [v |-> next, w |-> vc[P][P], r |-> @.r]]
    /\ next' = next + 1 /\ todo' = [todo EXCEPT ![P] = @ - 1]
    /\ UNCHANGED <<vc, wp, rp, seen, pw, cr, cnt, order>>
PStore ==
    /\ pw > 0 /\ todo[P] = 0
    /\ wp' = Append(wp, [v |-> (Last(wp).v + pw) % N, c |-> vc[P][P], r |-> IF RelW THEN vc[P] ELSE Zero])
    /\ vc' = [vc EXCEPT ![P][P] = @ + 1] /\ pw' = 0
    /\ UNCHANGED <<rp, seen, slot, next, cr, cnt, todo, race, order>>
CLoad ==
    /\ cr = 0 /\ cnt < K
    /\ \E i \in Visible(C, wp) :
        LET av == (wp[i].v - Last(rp).v + N) % N IN
        /\ seen' = [seen EXCEPT ![C] = i]
        /\ vc' = IF AcqW THEN [vc EXCEPT ![C] = Join(@, wp[i].r)] ELSE vc
        /\ \E n \in 0..Batch : n <= av /\ cr' = n /\ todo' = [todo EXCEPT ![C] = n]
    /\ UNCHANGED <<wp, rp, slot, pw, next, cnt, race, order>>
CRead ==
    /\ todo[C] > 0
    /\ LET p == (Last(rp).v + cr - todo[C]) % N IN
        /\ race' = (race \/ slot[p].w > vc[C][P])
        /\ order' = (order /\ slot[p].v = cnt + 1)
        /\ slot' = [slot EXCEPT ![p].r = vc[C][C]]
    /\ cnt' = cnt + 1 /\ todo' = [todo EXCEPT ![C] = @ - 1]
    /\ UNCHANGED <<vc, wp, rp, seen, pw, next, cr>>
CStore ==
    /\ cr > 0 /\ todo[C] = 0
    /\ rp' = Append(rp, [v |-> (Last(rp).v + cr) % N, c |-> vc[C][C], r |-> IF RelR THEN vc[C] ELSE Zero])
    /\ vc' = [vc EXCEPT ![C][C] = @ + 1] /\ cr' = 0
    /\ UNCHANGED <<wp, seen, slot, pw, next, cnt, todo, race, order>>
Next == PLoad \/ PWrite \/ PStore \/ CLoad \/ CRead \/ CStore
Spec == Init /\ [][Next]_vars
NoRace == ~race
InOrder == order
\* the consumer is never ahead, the producer never laps it
Bounded == cnt < next /\ next - 1 - cnt <= N - 1 + (cr - todo[C])
=================================================================================
