-------------------------------- MODULE FifoRace --------------------------------
(* An execution of a producer and a consumer of a FIFO, every access to the memory of the FIFO included
   (C16). It must be free of data races according to the C++ memory model, whatever the order of the
   steps and however old the values are that atomic loads return; and the consumer must get the
   elements in the order they were put in.

   Thread 0 is what precedes and follows both. vc[t] is the vector clock of t; mods[a] the modifications
   of the atomic at address a; lw and lr the epochs of the last write and reads of every byte. *)
EXTENDS TraceLib, Integers, Sequences, FiniteSets
VARIABLES l, msg, vc, fr, fa, mods, seen, lw, lr, put, open, got
vars == <<l, msg, vc, fr, fa, mods, seen, lw, lr, put, open, got>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
T == {1, 2}
Join(a, b) == [t \in T |-> Max(a[t], b[t])]
Zero == [t \in T |-> 0]
One(t) == [Zero EXCEPT ![t] = 1]
Init == l = 1 /\ msg = FALSE /\ vc = <<>> /\ fr = <<>> /\ fa = <<>> /\ mods = <<>> /\ seen = <<>> /\ lw = <<>> /\ lr = <<>> /\ put = <<>> /\ open = 0 /\ got = 0
Mem == <<lw, lr>>
Sync == <<vc, fr, fa, mods, seen>>
Queue == <<put, open, got>>
TrInit ==
    /\ Is("init") /\ msg' = E.msg
    /\ vc' = [t \in T |-> One(t)] /\ fr' = [t \in T |-> Zero] /\ fa' = [t \in T |-> Zero]
    /\ mods' = [a \in 0..E.size |-> <<[t |-> 0, c |-> 0, r |-> Zero]>>]
    /\ seen' = [t \in T |-> [a \in 0..E.size |-> 1]]
    /\ lw' = [a \in 0..E.size |-> Zero] /\ lr' = [a \in 0..E.size |-> Zero]
    /\ put' = <<>> /\ open' = 0 /\ got' = 0

(* The plain accesses of a thread t, before the event: each must be ordered with regard to all
   conflicting ones of the other. *)
Covers(x, a) == x.a <= a /\ a < x.a + x.n
Accesses(t, acc) ==
    IF acc = <<>> THEN UNCHANGED Mem
    ELSE LET o == 3 - t
             W == {a \in DOMAIN lw : \E i \in 1..Len(acc) : acc[i].w /\ Covers(acc[i], a)}
             R == {a \in DOMAIN lw : \E i \in 1..Len(acc) : ~acc[i].w /\ Covers(acc[i], a)}
         IN /\ \A a \in R \cup W : lw[a][o] <= vc[t][o]
            /\ \A a \in W : lr[a][o] <= vc[t][o]
            /\ lw' = [a \in DOMAIN lw |-> IF a \in W THEN [lw[a] EXCEPT ![t] = vc[t][t]] ELSE lw[a]]
            /\ lr' = [a \in DOMAIN lr |-> IF a \in R THEN [lr[a] EXCEPT ![t] = vc[t][t]] ELSE lr[a]]
\* modification i of address a may be seen by t
Visible(t, a, i) ==
    /\ i \in 1..Len(mods[a]) /\ i >= seen[t][a]
    /\ \A j \in i + 1..Len(mods[a]) : mods[a][j].t # t /\ (mods[a][j].t # 0 => mods[a][j].c > vc[t][mods[a][j].t])
Clock(t, m, acq) == IF acq THEN Join(vc[t], m.r) ELSE vc[t]
TrLoad ==
    /\ Is("at") /\ E.k = "l" /\ UNCHANGED <<msg, fr, mods, put, open, got>>
    /\ Accesses(E.t, E.acc)
    /\ Visible(E.t, E.a, E.i)
    /\ LET m == mods[E.a][E.i] IN
        /\ vc' = [vc EXCEPT ![E.t] = Clock(E.t, m, E.acq)]
        /\ fa' = [fa EXCEPT ![E.t] = Join(@, m.r)]
        /\ seen' = [seen EXCEPT ![E.t][E.a] = E.i]
Release(t, c, rel, extra) == Join(IF rel THEN c ELSE fr[t], extra)
Add(c, extra) ==
    /\ mods' = [mods EXCEPT ![E.a] = Append(@, [t |-> E.t, c |-> c[E.t], r |-> Release(E.t, c, E.rel, extra)])]
    /\ vc' = [vc EXCEPT ![E.t] = [c EXCEPT ![E.t] = @ + 1]]
    /\ seen' = [seen EXCEPT ![E.t][E.a] = E.j]
    /\ E.j = Len(mods[E.a]) + 1
TrStore ==
    /\ Is("at") /\ E.k = "s" /\ UNCHANGED <<msg, fr, fa, put, open, got>>
    /\ Accesses(E.t, E.acc)
    /\ Add(vc[E.t], Zero)
TrRmw ==
    /\ Is("at") /\ E.k = "x" /\ UNCHANGED <<msg, fr, put, open, got>>
    /\ Accesses(E.t, E.acc)
    /\ E.i = Len(mods[E.a])
    /\ LET m == mods[E.a][E.i] IN
        /\ fa' = [fa EXCEPT ![E.t] = Join(@, m.r)]
        /\ Add(Clock(E.t, m, E.acq), m.r)
TrFence ==
    /\ Is("fence") /\ UNCHANGED <<msg, fa, mods, seen, put, open, got>>
    /\ Accesses(E.t, E.acc)
    /\ LET c == IF E.acq THEN Join(vc[E.t], fa[E.t]) ELSE vc[E.t] IN
        /\ fr' = IF E.rel THEN [fr EXCEPT ![E.t] = c] ELSE fr
        /\ vc' = [vc EXCEPT ![E.t] = IF E.rel THEN [c EXCEPT ![E.t] = @ + 1] ELSE c]
TrEnd ==
    /\ Is("end") /\ UNCHANGED <<msg, vc, fr, fa, mods, seen, put, open, got>>
    /\ Accesses(E.t, E.acc)

(* The queue. put: what has been put, with whether it has been accepted: "yes", "no" or "maybe" (not
   known yet, or never). got: how many of these the consumer has passed. *)
Plain == UNCHANGED <<msg, vc, fr, fa, mods, seen>> /\ (IF E.t = 0 THEN UNCHANGED Mem ELSE Accesses(E.t, E.acc))
TrPut == \* about to
    /\ Is("put") /\ Plain /\ UNCHANGED got
    /\ put' = put \o [i \in 1..Len(E.v) |-> [v |-> E.v[i], ok |-> "maybe"]]
    /\ open' = Len(E.v)
TrPushed ==
    /\ Is("pushed") /\ Plain /\ UNCHANGED <<got, open>>
    /\ IF E.r = "?" THEN UNCHANGED put
       ELSE /\ put' = [i \in 1..Len(put) |-> IF i > Len(put) - E.v THEN [put[i] EXCEPT !.ok = IF E.r = "yes" THEN "yes" ELSE "no"] ELSE put[i]]
            \* what is refused, has not been received
            /\ E.r = "no" => got <= Len(put) - E.v
Skips(from, to) == \A i \in from..to : put[i].ok # "yes"
TrGot == \* the next one that has been accepted; those that are uncertain may be skipped
    /\ Is("got") /\ Plain /\ UNCHANGED <<put, open>>
    /\ \E i \in got + 1..Len(put) : put[i].v = E.v /\ put[i].ok # "no" /\ Skips(got + 1, i - 1) /\ got' = i
TrJoin ==
    /\ Is("join") /\ UNCHANGED <<msg, fr, fa, mods, seen, lw, lr, put, open, got>>
    /\ vc' = [t \in T |-> Join(vc[1], vc[2])]
TrFin == \* all has been received
    /\ Is("fin") /\ UNCHANGED <<msg, vc, fr, fa, mods, seen, lw, lr, put, open, got>>
    /\ Skips(got + 1, Len(put))
Next == TrInit \/ TrLoad \/ TrStore \/ TrRmw \/ TrFence \/ TrEnd \/ TrPut \/ TrPushed \/ TrGot \/ TrJoin \/ TrFin
Spec == Init /\ [][Next]_vars
=================================================================================
