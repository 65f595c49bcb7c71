------------------------------- MODULE FifoTrace --------------------------------
(* Operations on a Fifo ("fifo"), MessageFifo ("msg") or FifoLoopback1 ("loop"), each followed by what
   can be observed of it (C15). *)
EXTENDS Fifo, TraceLib
VARIABLES l, k, q, f, part, drop, err
vars == <<l, k, q, f, part, drop, err>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Init == l = 1 /\ k = <<>> /\ q = <<>> /\ f = MEmpty /\ part = <<>> /\ drop = FALSE /\ err = FALSE

(* what is observed *)
RECURSIVE Concat(_)
Items(o) == o.items
ObsFifo(o, nq) ==
    /\ o.avail = Len(nq) /\ (o.empty = (nq = <<>>)) /\ o.items = nq /\ o.idx = nq /\ o.view = nq
    /\ o.front = SubSeq(nq, 1, IF nq = <<>> THEN 0 ELSE 1)
    /\ IF k.cap > 0 THEN o.space = k.cap - Len(nq) /\ (o.full = (Len(nq) = k.cap)) ELSE ~o.full
    /\ IF nq = <<>> THEN o.chunk = 0 ELSE o.chunk >= 1 /\ o.chunk <= Len(nq)
Concat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Concat(Tail(s))
ObsMsg(o, nq, nf) ==
    /\ o.avail = Len(nq) /\ (o.empty = (nq = <<>>))
    /\ k.t # "loop" => o.front = SubSeq(nq, 1, IF nq = <<>> THEN 0 ELSE 1)
    /\ IF k.cap > 0 THEN o.space = MSpace(k.cap, k.max, nf) /\ (o.full = (o.space = 0))
       ELSE o.full = MFull(k.max, nf)
Obs == IF k.t = "fifo" THEN ObsFifo(E.o, q') ELSE ObsMsg(E.o, q', f')
Next1 == UNCHANGED <<k, drop, err>>
Unch == UNCHANGED <<q, f, part>>

TrInit ==
    /\ Is("init") /\ k' = E.k /\ q' = <<>> /\ f' = MEmpty /\ part' = <<>> /\ drop' = FALSE /\ err' = FALSE
\* Fifo
TrPut ==
    /\ Is("put") /\ Next1 /\ UNCHANGED <<f, part>>
    /\ q' = q \o E.v
TrPop ==
    /\ Is("pop") /\ Next1 /\ UNCHANGED part
    /\ q' = SubSeq(q, E.n + 1, Len(q)) /\ E.n <= Len(q)
    /\ f' = IF k.t = "fifo" THEN f ELSE IF E.n = 1 THEN MPop(f) ELSE f
\* pop all or some by an iterator
RECURSIVE PopN(_, _)
PopN(g, n) == IF n = 0 THEN g ELSE PopN(MPop(g), n - 1)
TrIter ==
    /\ Is("iter") /\ Next1 /\ UNCHANGED part
    /\ E.n <= Len(q) /\ E.v = SubSeq(q, 1, E.n) /\ E.end = (E.n = Len(q))
    /\ q' = SubSeq(q, E.n + 1, Len(q))
    /\ f' = IF k.t = "fifo" THEN f ELSE PopN(f, E.n)
TrPoke == \* modify in place
    /\ Is("poke") /\ Next1 /\ UNCHANGED <<f, part>>
    /\ q' = [q EXCEPT ![E.i] = E.v]
TrClear ==
    /\ Is("clear") /\ Next1 /\ q' = <<>> /\ part' = <<>> /\ f' = MClear(f)
TrView ==
    /\ Is("view") /\ Next1 /\ Unch
    /\ LET v == SubSeq(q, E.from + 1, E.from + E.n) IN
        E.size = E.n /\ E.empty = (E.n = 0) /\ E.idx = v /\ E.copy = v /\ E.cont = v /\ E.it = v
\* MessageFifo
TrApp ==
    /\ Is("app") /\ Next1 /\ UNCHANGED q
    /\ LET n == Len(E.v) IN
       IF MTooBig(k.cap, f, n) THEN E.r = "throw" /\ UNCHANGED <<f, part>>
       ELSE IF MFits(k.cap, f, n) THEN E.r = "true" /\ part' = part \o E.v /\ f' = MAppend(k.cap, f, n)
       ELSE E.r = "false" /\ UNCHANGED part /\ f' = MStart(f, n)
TrPush ==
    /\ Is("push") /\ Next1
    /\ LET n == Len(E.v) IN
       IF MFull(k.max, f) THEN E.r = "false" /\ Unch
       ELSE IF MTooBig(k.cap, f, n) THEN E.r = "throw" /\ Unch
       ELSE IF MFits(k.cap, f, n) THEN E.r = "true" /\ q' = Append(q, part \o E.v) /\ part' = <<>> /\ f' = MDone(MAppend(k.cap, f, n))
       ELSE E.r = "false" /\ UNCHANGED <<q, part>> /\ f' = MStart(f, n)
RECURSIVE PushAll(_, _, _, _)
\* as many as possible
PushAll(g, pt, vs, i) ==
    IF i > Len(vs) \/ MFull(k.max, g) THEN <<g, i - 1>>
    ELSE IF ~MFits(k.cap, g, Len(vs[i])) THEN <<MStart(g, Len(vs[i])), i - 1>>
    ELSE PushAll(MDone(MAppend(k.cap, g, Len(vs[i]))), <<>>, vs, i + 1)
TrPushN ==
    /\ Is("pushn") /\ Next1
    /\ LET r == PushAll(f, part, E.v, 1) IN
        /\ E.r = r[2] /\ f' = r[1]
        /\ IF r[2] = 0 THEN UNCHANGED <<q, part>>
           ELSE /\ q' = q \o [i \in 1..r[2] |-> IF i = 1 THEN part \o E.v[1] ELSE E.v[i]]
                /\ part' = <<>>
TrDone ==
    /\ Is("done") /\ Next1
    /\ IF MFull(k.max, f) THEN E.r = "false" /\ Unch
       ELSE E.r = "true" /\ q' = Append(q, part) /\ part' = <<>> /\ f' = MDone(f)
TrReset ==
    /\ Is("reset") /\ Next1 /\ UNCHANGED q /\ part' = <<>> /\ f' = MReset(f)

(* FifoLoopback1: a message of which a part does not fit is dropped as a whole. The handler may make
   room by receiving messages, which is repeated as long as there are any. E.got are the messages it received. *)
RECURSIVE Recv(_, _)
Recv(g, n) == IF n = 0 THEN g ELSE Recv(MPop(g), n - 1)
LFits(g, n, last) == (last => ~MFull(k.max, g)) /\ MFits(k.cap, g, n)
TrEnc ==
    /\ Is("enc") /\ UNCHANGED k
    /\ LET n == Len(E.v)
           g == Recv(f, Len(E.got))
           q1 == SubSeq(q, Len(E.got) + 1, Len(q))
       IN
       IF drop THEN
            E.got = <<>> /\ Unch /\ drop' = ~E.last /\ UNCHANGED err
       ELSE
        /\ Len(E.got) <= Len(q) /\ E.got = SubSeq(q, 1, Len(E.got))
        /\ \A i \in 0..Len(E.got) - 1 : ~LFits(Recv(f, i), n, E.last) \* not more than required
        /\ IF LFits(g, n, E.last) THEN
                /\ UNCHANGED <<drop, err>>
                /\ IF E.last THEN q' = Append(q1, part \o E.v) /\ part' = <<>> /\ f' = MDone(MAppend(k.cap, g, n))
                   ELSE q' = q1 /\ part' = part \o E.v /\ f' = MAppend(k.cap, g, n)
           ELSE /\ (E.h => q1 = <<>>)
                /\ (~E.h => E.got = <<>>)
                /\ q' = q1 /\ part' = <<>>
                /\ f' = MReset(IF E.last /\ MFull(k.max, g) THEN g ELSE MStart(g, n))
                /\ drop' = ~E.last
                /\ err' = (err \/ ~E.h)
    /\ E.err = err'
TrRecv ==
    /\ Is("recv") /\ UNCHANGED <<k, part, drop, err>>
    /\ E.err = err
    /\ IF E.all THEN E.got = q /\ q' = <<>> /\ f' = Recv(f, Len(q))
       ELSE IF q = <<>> THEN E.got = <<>> /\ E.r # 0 /\ UNCHANGED <<q, f>>
       ELSE E.got = <<Head(q)>> /\ E.r = 0 /\ q' = Tail(q) /\ f' = MPop(f)
TrLReset ==
    /\ Is("lreset") /\ UNCHANGED <<k, q, f, part, drop>> /\ err' = FALSE /\ E.err = err'
TrMtu ==
    /\ Is("mtu") /\ UNCHANGED <<k, q, f, part, drop, err>>
    \* a message of the announced size fits if nothing else is queued
    /\ E.mtu >= 1 /\ MRoom(k.cap, MEmpty) >= E.mtu
Next == TrInit \/ ((TrPut \/ TrPop \/ TrIter \/ TrPoke \/ TrClear \/ TrView \/ TrApp \/ TrPush \/ TrPushN \/ TrDone \/ TrReset
        \/ TrEnc \/ TrRecv \/ TrLReset \/ TrMtu) /\ Obs)
Spec == Init /\ [][Next]_vars
=================================================================================
