------------------------------ MODULE CompressTrace ------------------------------
(* Compression layers and decoders. enc: d is encoded, out is what the layer below got;
   dec: a message given to the layer, up is what the layer above got; fill, fin: chunks of
   a stream given to the stream decoder. *)
EXTENDS TraceLib, SequencesExt
H == INSTANCE Heatshrink WITH B <- 8, W <- 8, L <- 4
VARIABLES l, acc, out, busy, in
None == [d |-> <<>>, o |-> <<>>]
vars == <<l, acc, out, busy, in>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Init == l = 1 /\ acc = <<>> /\ out = <<>> /\ busy = FALSE /\ in = None
Begin == Is("init") /\ acc' = <<>> /\ out' = <<>> /\ busy' = FALSE /\ in' = None
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s).d \o Cat(Tail(s))
Enc == /\ Is("enc")
       /\ LET a == acc \o E.d
              o == out \o Cat(E.out)
              d == H!DecodeBytes(o)
              n == Len(E.out) IN
          IF E.last THEN
             /\ d = a
             \* nothing but the message, and its end exactly once
             /\ 8 * Len(o) <= 9 * Len(a) + 7
             /\ n > 0 /\ E.out[n].last /\ \A i \in 1..(n - 1) : ~E.out[i].last
             /\ E.idle
             /\ acc' = <<>> /\ out' = <<>> /\ busy' = FALSE
          ELSE
             /\ IsPrefix(d, a)
             /\ \A i \in 1..n : ~E.out[i].last
             /\ E.idle => a = <<>>
             /\ acc' = a /\ out' = o /\ busy' = TRUE
       /\ UNCHANGED in
Dec == /\ Is("dec")
       /\ E.up = <<H!DecodeBytes(E.d)>> \/ (E.d = <<>> /\ E.up = <<>>)
       /\ E.idle = ~busy \/ (E.idle /\ acc = <<>>)
       /\ UNCHANGED <<acc, out, busy, in>>
\* in: what has been received, and how much of it has been given
Given == LET d == H!DecodeBytes(in.d \o E.d) IN d = in.o \o E.o
Fill == /\ Is("fill")
        /\ Given
        /\ in' = [d |-> in.d \o E.d, o |-> in.o \o E.o]
        /\ UNCHANGED <<acc, out, busy>>
Fin == /\ Is("fin")
       /\ Given
       /\ in' = None
       /\ UNCHANGED <<acc, out, busy>>
Next == Begin \/ Enc \/ Dec \/ Fill \/ Fin
Spec == Init /\ [][Next]_vars
================================================================================
