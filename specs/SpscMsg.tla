-------------------------------- MODULE SpscMsg ---------------------------------
(* A MessageFifo between two threads on weakly ordered memory. The message table is a ring by itself
   (SpscMC); here it is a history of published and of removed messages. The positions in the byte
   buffer: wp is only of the producer, rp is stored by the consumer after every message, and reset by
   the producer when there are no messages. *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS
    Size, Msgs, Lens,
    K,          \* messages put
    RelRp, AcqRp,
    RelT, AcqT, \* release and acquire of the message table
    EmptyTest   \* "table": reset when there are no messages; "pos": when rp = wp
VARIABLES vc, tab, removed, rp, seen, byte, wp, p, c, next, cnt, bad
vars == <<vc, tab, removed, rp, seen, byte, wp, p, c, next, cnt, bad>>
P == 1
C == 2
T == {P, C}
Max(a, b) == IF a > b THEN a ELSE b
Join(a, b) == [t \in T |-> Max(a[t], b[t])]
Zero == [t \in T |-> 0]
Idle == [s |-> "idle"]
Mod(v, t, cl, rel) == [v |-> v, t |-> t, c |-> cl[t], r |-> IF rel THEN cl ELSE Zero]
Init ==
    /\ vc = [t \in T |-> [Zero EXCEPT ![t] = 1]]
    /\ tab = <<>> /\ removed = <<>> \* one modification per message
    /\ rp = <<[v |-> 0, t |-> 0, c |-> 0, r |-> Zero]>>
    /\ seen = [tab |-> 0, removed |-> 0, rp |-> 1]
    /\ byte = [i \in 0..Size - 1 |-> [v |-> 0, w |-> 0, r |-> 0]]
    /\ wp = 0 /\ p = Idle /\ c = Idle /\ next = 1 /\ cnt = 0 /\ bad = {}
\* how many modifications of h may t see
Visible(t, h, from) == {i \in from..Len(h) : \A j \in i + 1..Len(h) : h[j].t # t /\ h[j].c > vc[t][3 - t]}
ObtainAll(t, h, i, acq) == IF acq /\ i > 0 THEN [vc EXCEPT ![t] = Join(@, h[i].r)] ELSE vc

\* the producer: is there room in the table?
PFull ==
    /\ p.s = "idle" /\ next <= K
    /\ \E i \in Visible(P, removed, seen.removed), n \in Lens :
        /\ seen' = [seen EXCEPT !.removed = i]
        /\ vc' = ObtainAll(P, removed, i, AcqT)
        /\ p' = IF Len(tab) - i >= Msgs THEN Idle ELSE [s |-> "rp", n |-> n]
    /\ UNCHANGED <<tab, removed, rp, byte, wp, c, next, cnt, bad>>
PRp ==
    /\ p.s = "rp"
    /\ \E i \in Visible(P, rp, seen.rp) :
        /\ seen' = [seen EXCEPT !.rp = i]
        /\ vc' = ObtainAll(P, rp, i, AcqRp)
        /\ p' = [s |-> IF p.n = 0 THEN "publish" ELSE "empty", n |-> p.n, rp |-> rp[i].v, a |-> wp]
    /\ UNCHANGED <<tab, removed, rp, byte, wp, c, next, cnt, bad>>
Place(w, r, n) == IF w >= r
    THEN IF w + n < Size \/ (w + n <= Size /\ r > 0) THEN w ELSE IF r > n THEN 0 ELSE -1
    ELSE IF r - w > n THEN w ELSE -1
Go(w, r) == LET a == Place(w, r, p.n) IN
    IF a < 0 THEN p' = Idle /\ wp' = w ELSE p' = [s |-> "write", n |-> p.n, rp |-> r, a |-> a] /\ wp' = a
PEmpty ==
    /\ p.s = "empty"
    /\ \E i \in Visible(P, removed, seen.removed) :
        /\ seen' = [seen EXCEPT !.removed = i, !.rp = IF (IF EmptyTest = "table" THEN Len(tab) = i ELSE p.rp = wp) THEN Len(rp) + 1 ELSE @]
        /\ LET v == ObtainAll(P, removed, i, AcqT) IN
           IF (IF EmptyTest = "table" THEN Len(tab) = i ELSE p.rp = wp)
           THEN /\ rp' = Append(rp, Mod(0, P, v[P], FALSE))
                /\ vc' = [v EXCEPT ![P][P] = @ + 1]
                /\ Go(0, 0)
           ELSE vc' = v /\ UNCHANGED rp /\ Go(wp, p.rp)
    /\ UNCHANGED <<tab, removed, byte, c, next, cnt, bad>>
PWrite ==
    /\ p.s = "write"
    /\ bad' = bad \cup (IF \E i \in p.a..p.a + p.n - 1 : byte[i].r > vc[P][C] THEN {"race"} ELSE {})
    /\ byte' = [i \in DOMAIN byte |-> IF i >= p.a /\ i < p.a + p.n THEN [v |-> next, w |-> vc[P][P], r |-> byte[i].r] ELSE byte[i]]
    /\ p' = [p EXCEPT !.s = "publish"]
    /\ UNCHANGED <<vc, tab, removed, rp, seen, wp, c, next, cnt>>
PPublish ==
    /\ p.s = "publish"
    /\ tab' = Append(tab, Mod([a |-> p.a, n |-> p.n], P, vc[P], RelT))
    /\ vc' = [vc EXCEPT ![P][P] = @ + 1]
    /\ wp' = p.a + p.n /\ next' = next + 1 /\ p' = Idle
    /\ UNCHANGED <<removed, rp, seen, byte, c, cnt, bad>>

CLook ==
    /\ c.s = "idle"
    /\ \E i \in Visible(C, tab, seen.tab) :
        /\ i > cnt
        /\ seen' = [seen EXCEPT !.tab = i]
        /\ vc' = ObtainAll(C, tab, i, AcqT)
        /\ c' = [s |-> "read", m |-> tab[cnt + 1].v]
    /\ UNCHANGED <<tab, removed, rp, byte, wp, p, next, cnt, bad>>
CRead ==
    /\ c.s = "read"
    /\ LET I == c.m.a..c.m.a + c.m.n - 1 IN
        /\ bad' = bad \cup (IF \E i \in I : byte[i].w > vc[C][P] THEN {"race"} ELSE {})
                      \cup (IF \E i \in I : byte[i].v # cnt + 1 THEN {"content"} ELSE {})
        /\ byte' = [i \in DOMAIN byte |-> IF i \in I THEN [byte[i] EXCEPT !.r = vc[C][C]] ELSE byte[i]]
    /\ c' = [c EXCEPT !.s = "rp"]
    /\ UNCHANGED <<vc, tab, removed, rp, seen, wp, p, next, cnt>>
CRp ==
    /\ c.s = "rp"
    /\ rp' = Append(rp, Mod(c.m.a + c.m.n, C, vc[C], RelRp))
    /\ vc' = [vc EXCEPT ![C][C] = @ + 1]
    /\ c' = [c EXCEPT !.s = "remove"]
    /\ UNCHANGED <<tab, removed, seen, byte, wp, p, next, cnt, bad>>
CRemove ==
    /\ c.s = "remove"
    /\ removed' = Append(removed, Mod(0, C, vc[C], RelT))
    /\ vc' = [vc EXCEPT ![C][C] = @ + 1]
    /\ cnt' = cnt + 1 /\ c' = Idle
    /\ UNCHANGED <<tab, rp, seen, byte, wp, p, next, bad>>
Next == PFull \/ PRp \/ PEmpty \/ PWrite \/ PPublish \/ CLook \/ CRead \/ CRp \/ CRemove
Spec == Init /\ [][Next]_vars
NoRace == "race" \notin bad
Intact == "content" \notin bad
Inside == p.s \in {"write", "publish"} => p.a >= 0 /\ p.a + p.n <= Size
=================================================================================
