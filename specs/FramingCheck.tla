------------------------------- MODULE FramingCheck -------------------------------
(* Design check of the framing: every message over a small alphabet (with all bytes that have a
   meaning for some layer), every MTU. For the CRC: every burst in every frame.    *)
EXTENDS Framing, TLC, FiniteSets, Integers
CONSTANTS MaxLen, Alphabet, BurstLen
VARIABLES m, mtu, done
Rng(s) == {s[i] : i \in 1..Len(s)}
Msgs == UNION {[1..n -> Alphabet] : n \in 0..MaxLen}
Init == m \in Msgs /\ mtu \in {0, 2, 3, 5} /\ done = FALSE
Next == ~done /\ done' = TRUE /\ UNCHANGED <<m, mtu>>
Spec == Init /\ [][Next]_<<m, mtu, done>>

Esc == \A all \in BOOLEAN : AscDec(AscEnc(m, all)) = m /\ Rng(AscEnc(m, all)) \cap AscReserved = {}
Crlf(f) == Cat([i \in 1..Len(f) |-> IF f[i] = 10 THEN <<13, 10>> ELSE <<f[i]>>])
EscCr == AscDec(Crlf(AscEnc(m, FALSE))) = m
Term == LET f == TermEnc(AscEnc(m, FALSE)) IN TermOk(f) /\ TermDec(f) = AscEnc(m, FALSE) /\ TermStream(f \o <<65, 66>> \o f) = <<AscEnc(m, FALSE), AscEnc(m, FALSE)>>
Seg == LET fs == SegEnc(m, mtu)
           RECURSIVE D(_, _, _) D(i, a, out) == IF i > Len(fs) THEN [a |-> a, out |-> out]
                ELSE LET r == StackDec(<<"seg">>, fs[i], a) IN D(i + 1, r.acc, IF r.up THEN Append(out, r.m) ELSE out)
       IN /\ D(1, <<>>, <<>>) = [a |-> <<>>, out |-> <<m>>]
          /\ mtu > 0 => \A i \in 1..Len(fs) : Len(fs[i]) <= mtu
Crc == Crc8Ok(Crc8Enc(m)) /\ Crc16Ok(Crc16Enc(m))
\* flips of bits p..p+k of frame f, pattern q (first and last bit of the burst are flipped)
Bit(x, i) == (x \div (2 ^ i)) % 2
Flip(f, p, q) == [i \in 1..Len(f) |-> LET RECURSIVE V(_, _) V(b, v) == IF b > 7 THEN v
                        ELSE LET pos == (i - 1) * 8 + (7 - b) IN
                             V(b + 1, v + (2 ^ b) * (IF pos >= p /\ pos < p + 16 /\ Bit(q, pos - p) = 1 THEN 1 ELSE 0))
                    IN f[i] ^^ V(0, 0)]
\* As 0x1a6 is a multiple of x, the checksum effectively has 7 bits: this burst (11010011) of 8 bits is not
\* detected (known finding)
Weak == 203
Burst == LET f == Crc8Enc(m) g == Crc16Enc(m) IN
    /\ \A p \in 0..(8 * Len(f) - 1), q \in 1..255 : (q % 2 = 1 /\ q # Weak /\ Flip(f, p, q) # f) => ~Crc8Ok(Flip(f, p, q))
    /\ \A p \in 0..(8 * Len(g) - 1), q \in 1..BurstLen : (q % 2 = 1 /\ Flip(g, p, q) # g) => ~Crc16Ok(Flip(g, p, q))
Framing_ == Esc /\ EscCr /\ Term /\ Seg /\ Crc
================================================================================
