------------------------------- MODULE HeatshrinkMC -------------------------------
(* A compressor that chooses any valid symbol for the input, gives whole bytes to the
   channel as soon as there are, and pads at the end. Whatever it chooses and whatever is
   read so far, the decoder gives a prefix of the input; after the end all of it. *)
EXTENDS Heatshrink, FiniteSets, TLC
CONSTANTS MaxLen, MaxMsgs
VARIABLES acc, bits, sent, ended, msgs
vars == <<acc, bits, sent, ended, msgs>>
Byte == 0..(Pow[B] - 1)
N(x, n) == [i \in 1..n |-> (x \div Pow[n - i]) % 2]
Init == acc = <<>> /\ bits = <<>> /\ sent = 0 /\ ended = FALSE /\ msgs = 0
\* input is taken and encoded as literal
Literal == \E c \in Byte : Len(acc) < MaxLen /\ ~ended /\ acc' = Append(acc, c) /\ bits' = bits \o <<1>> \o N(c, B) /\ UNCHANGED <<sent, ended, msgs>>
\* input is taken that repeats what was before
Repeat == \E d \in 1..Pow[W], n \in 1..Pow[L] :
    /\ ~ended /\ Len(acc) + n <= MaxLen /\ d <= Len(acc)
    /\ acc' = Copy(acc, d, n)
    /\ bits' = bits \o <<0>> \o N(d - 1, W) \o N(n - 1, L)
    /\ UNCHANGED <<sent, ended, msgs>>
Send == /\ sent + B <= Len(bits) /\ sent' = sent + B /\ UNCHANGED <<acc, bits, ended, msgs>>
Pad == (B - (Len(bits) % B)) % B
End == /\ ~ended /\ ended' = TRUE
       /\ bits' = bits \o [i \in 1..Pad |-> 0]
       /\ UNCHANGED <<acc, sent, msgs>>
\* encoder and decoder start over
Again == /\ ended /\ sent = Len(bits) /\ msgs < MaxMsgs
         /\ msgs' = msgs + 1 /\ acc' = <<>> /\ bits' = <<>> /\ sent' = 0 /\ ended' = FALSE
Next == Literal \/ Repeat \/ Send \/ End \/ Again
Spec == Init /\ [][Next]_vars
Prefix(s, t) == Len(s) <= Len(t) /\ s = SubSeq(t, 1, Len(s))
Read == Decode(SubSeq(bits, 1, sent))
InOrder == Prefix(Read, acc)
Complete == ended /\ sent = Len(bits) => Read = acc
\* at most one symbol and a byte behind
Held == sent + B > Len(bits) => Len(acc) - Len(Read) <= Pow[L]
================================================================================
