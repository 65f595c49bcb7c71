---------------------------------- MODULE Fifo ----------------------------------
(* The FIFOs of libstored, used by one context. A FIFO is a queue; a message FIFO stores its messages
   in a ring of bytes, every message contiguous, which determines what fits. *)
EXTENDS Integers, Sequences, FiniteSets
LOCAL Max(a, b) == IF a > b THEN a ELSE b

(* Message FIFO: rp: start of the oldest message, wp: where the message in progress starts, p: its
   length so far; ms: the positions and lengths of the queued messages. size: of the ring (0 if it is
   unlimited), max: number of messages (0 if unlimited). *)
MEmpty == [rp |-> 0, wp |-> 0, p |-> 0, ms |-> <<>>]
MFull(max, f) == max > 0 /\ Len(f.ms) >= max
\* bytes that can be added to the message in progress
MRoom(size, f) ==
    IF f.ms = <<>> THEN size - 1 - f.p
    ELSE IF f.wp < f.rp THEN f.rp - f.wp - f.p - 1
    ELSE IF f.rp = 0 THEN size - 1 - f.wp - f.p
    ELSE Max(size - f.wp, f.rp - 1) - f.p
MSpace(size, max, f) == IF MFull(max, f) THEN 0 ELSE MRoom(size, f)
\* only a message that can never fit is an error
MTooBig(size, f, n) == n > 0 /\ size > 0 /\ f.p + n > size
MFits(size, f, n) == n = 0 \/ size = 0 \/ n <= MRoom(size, f)
\* without messages, the one in progress is moved to the start
MStart(f, n) == IF n > 0 /\ f.ms = <<>> THEN [f EXCEPT !.rp = 0, !.wp = 0] ELSE f
MAppend(size, f, n) ==
    IF n = 0 THEN f
    ELSE LET g == MStart(f, n) IN
         IF size = 0 \/ g.wp < g.rp \/ g.wp + g.p + n < size \/ (g.wp + g.p + n = size /\ g.rp > 0)
         THEN [g EXCEPT !.p = @ + n]
         ELSE [g EXCEPT !.wp = 0, !.p = @ + n] \* to the start of the ring
MDone(f) == [f EXCEPT !.ms = Append(@, [a |-> f.wp, n |-> f.p]), !.wp = @ + f.p, !.p = 0]
MReset(f) == [f EXCEPT !.p = 0]
MPop(f) == [f EXCEPT !.rp = f.ms[1].a + f.ms[1].n, !.ms = Tail(@)]
MClear(f) == [f EXCEPT !.rp = f.wp, !.p = 0, !.ms = <<>>]
=================================================================================
