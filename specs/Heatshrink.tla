-------------------------------- MODULE Heatshrink --------------------------------
(* The compressed format, generic in the size of a byte (B bits), the window (W bits) and
   the lookahead (L bits). A stream of bits is a sequence of symbols: 1, byte: a literal;
   0, distance - 1, count - 1: repetition of earlier output (zeros before the start). The
   stream is padded by zero bits to whole bytes; an incomplete symbol is no symbol. *)
EXTENDS Naturals, Sequences
CONSTANTS B, W, L
Pow[n \in 0..32] == IF n = 0 THEN 1 ELSE IF n > 30 THEN 0 ELSE 2 * Pow[n - 1]
RECURSIVE Num(_, _, _)
\* number of n bits, from index i of b
Num(b, i, n) == IF n = 0 THEN 0 ELSE 2 * Num(b, i, n - 1) + b[i + n - 1]
RECURSIVE Copy(_, _, _)
Copy(a, back, n) == IF n = 0 THEN a ELSE Copy(Append(a, IF back > Len(a) THEN 0 ELSE a[Len(a) + 1 - back]), back, n - 1)
RECURSIVE Dec(_, _, _)
Dec(b, i, a) ==
    LET n == Len(b) + 1 - i IN
    IF n < 1 + B THEN a
    ELSE IF b[i] = 1 THEN Dec(b, i + 1 + B, Append(a, Num(b, i + 1, B)))
    ELSE IF n < 1 + W + L THEN a
    ELSE Dec(b, i + 1 + W + L, Copy(a, Num(b, i + 1, W) + 1, Num(b, i + 1 + W, L) + 1))
\* the decoded output of bits b
Decode(b) == Dec(b, 1, <<>>)
ToBits(x) == [i \in 1..B * Len(x) |-> (x[(i - 1) \div B + 1] \div Pow[(B - 1) - ((i - 1) % B)]) % 2]
DecodeBytes(x) == Decode(ToBits(x))
================================================================================
