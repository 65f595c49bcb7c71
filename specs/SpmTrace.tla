-------------------------------- MODULE SpmTrace --------------------------------
(* Conformance of the ScratchPad with what its user relies on (C17): every allocation is at a
   place of its own, aligned, and keeps its content; sizes are exact; the pad only grows when
   the free room does not suffice; a failed allocation changes nothing. Places are ranks of the
   addresses, as only their order counts. *)
EXTENDS TraceLib
VARIABLES l, m, blocks, snaps, o
vars == <<l, m, blocks, snaps, o>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
None == [size |-> 0, max |-> 0, cap |-> 0, chunks |-> 0]
Init == l = 1 /\ m = 0 /\ blocks = <<>> /\ snaps = <<>> /\ o = None
TrInit == Is("init") /\ m' = E.m /\ blocks' = <<>> /\ snaps' = <<>> /\ o' = [None EXCEPT !.cap = -1]
Room == o.cap - o.size
Obs ==
    /\ E.o.live = [i \in 1..Len(blocks') |-> blocks'[i].v]
    /\ E.o.empty = (E.o.size = 0)
    /\ E.o.size <= E.o.max /\ E.o.size <= E.o.cap
    /\ o' = [size |-> E.o.size, max |-> E.o.max, cap |-> E.o.cap, chunks |-> E.o.chunks]
Known == o.cap >= 0
Eff(a) == Max(1, Min(8, a))
\* alignment of a type of such a size
Pow2(a) == IF a % 8 = 0 THEN 8 ELSE IF a % 4 = 0 THEN 4 ELSE IF a % 2 = 0 THEN 2 ELSE 1
Tight == E.o.max = Max(o.max, E.o.size)
TrAlloc ==
    /\ Is("alloc") /\ UNCHANGED <<m, snaps>>
    /\ IF E.threw
       THEN \* too much
            /\ TRUE = (IF E.n < 0 THEN TRUE ELSE o.size + Eff(E.a) - 1 > m - E.n)
            /\ UNCHANGED blocks
            /\ Known => E.o.size = o.size /\ E.o.max = o.max /\ E.o.cap = o.cap /\ E.o.chunks = o.chunks
       ELSE
            /\ ~E.null
            /\ E.n >= 0
            /\ E.n = 0 => E.o.size = o.size
            /\ LET pad == E.o.size - o.size - E.n IN
                /\ pad \in 0..(Eff(E.a) - 1)
                /\ E.o.size <= m
                /\ E.mod % Pow2(Eff(E.a)) = 0 \/ E.n = 0
                \* no needless growth
                /\ (Known /\ E.n + pad <= Room /\ E.n > 0) => E.o.cap = o.cap /\ E.o.chunks = o.chunks
                /\ Known => E.o.chunks <= o.chunks + 1
            /\ Tight
            /\ \A i \in 1..Len(blocks) : E.q <= blocks[i].p \/ blocks[i].q <= E.p
            /\ blocks' = IF E.n = 0 THEN blocks ELSE Append(blocks, [p |-> E.p, q |-> E.q, v |-> E.v])
    /\ Obs
TrSnap == Is("snap") /\ snaps' = Append(snaps, [n |-> Len(blocks), size |-> o.size]) /\ UNCHANGED <<m, blocks>> /\ Obs /\ (Known => o' = o)
Back(k) ==
    /\ blocks' = SubSeq(blocks, 1, snaps[k].n)
    /\ E.o.size = snaps[k].size /\ E.o.max = o.max /\ E.o.chunks <= o.chunks
    /\ E.o.size = 0 => E.o.chunks <= 1 /\ (o.chunks > 1 => E.o.cap >= o.max)
TrRoll == Is("roll") /\ Back(E.k) /\ snaps' = SubSeq(snaps, 1, E.k) /\ UNCHANGED m /\ Obs
TrDrop == Is("drop") /\ Back(E.k) /\ snaps' = SubSeq(snaps, 1, E.k - 1) /\ UNCHANGED m /\ Obs
\* one chunk; several chunks are replaced by one with room for all there ever was
TrReset ==
    /\ Is("reset") /\ blocks' = <<>> /\ snaps' = <<>> /\ UNCHANGED m
    /\ E.o.size = 0 /\ E.o.max = o.max /\ E.o.chunks <= 1 /\ (o.chunks > 1 => E.o.cap >= o.max)
    /\ Obs
TrReserve ==
    /\ Is("reserve") /\ UNCHANGED <<m, blocks, snaps>>
    /\ E.o.size = o.size /\ E.o.max = o.max /\ E.o.cap - E.o.size >= E.n
    /\ Known /\ Room >= E.n => E.o.cap = o.cap /\ E.o.chunks = o.chunks
    /\ Obs
TrShrink ==
    /\ Is("shrink") /\ UNCHANGED <<m, blocks>>
    /\ snaps' = IF o.size = 0 THEN <<>> ELSE snaps
    /\ E.o.size = o.size /\ E.o.max = o.size
    /\ o.size = 0 => E.o.chunks = 0 /\ E.o.cap = 0
    /\ Obs
\* moving: the target detaches from what it was
TrMove == Is("move") /\ snaps' = SubSeq(snaps, 1, E.k - 1) \o SubSeq(snaps, E.k + 1, Len(snaps)) /\ UNCHANGED <<m, blocks>> /\ Obs /\ (Known => o' = o)
TrCtor == Is("mctor") /\ UNCHANGED <<m, blocks, snaps>> /\ Obs /\ (Known => o' = o)
Next == TrMove \/ TrCtor \/ TrInit \/ TrAlloc \/ TrSnap \/ TrRoll \/ TrDrop \/ TrReset \/ TrReserve \/ TrShrink
Spec == Init /\ [][Next]_vars
================================================================================
