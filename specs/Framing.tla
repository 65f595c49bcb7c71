--------------------------------- MODULE Framing ---------------------------------
(* The wire formats of the framing layers as functions on byte sequences: EncX maps a message to
   the frame(s), DecX is what the peer must get. Used by the design checks (FramingCheck)
   and by the trace spec (FramingTrace).                                          *)
EXTENDS Naturals, Sequences, Bitwise
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Cat(ss) == LET RECURSIVE F(_, _) F(i, acc) == IF i > Len(ss) THEN acc ELSE F(i + 1, acc \o ss[i]) IN F(1, <<>>)

\* --- ASCII escape: reserved bytes as <<127, byte + 64>>, 127 doubled; unescaped CRs are noise
AscReserved == {0, 17, 19, 27, 13}
AscEnc(m, all) == Cat([i \in 1..Len(m) |-> IF m[i] \in AscReserved \/ (all /\ m[i] < 32) THEN <<127, m[i] + 64>>
                                       ELSE IF m[i] = 127 THEN <<127, 127>> ELSE <<m[i]>>])
AscDec(f) ==
    LET RECURSIVE F(_, _) F(i, acc) ==
            IF i > Len(f) THEN acc
            ELSE IF f[i] = 127 /\ i < Len(f) THEN F(i + 2, Append(acc, IF f[i + 1] = 127 THEN 127 ELSE f[i + 1] % 32))
            ELSE IF f[i] = 13 /\ i < Len(f) THEN F(i + 1, acc)
            ELSE F(i + 1, Append(acc, f[i]))
    IN F(1, <<>>)

\* --- Terminal: ESC _ frame ESC \
TermEnc(m) == <<27, 95>> \o m \o <<27, 92>>
TermOk(f) == Len(f) >= 4 /\ f[1] = 27 /\ f[2] = 95 /\ f[Len(f) - 1] = 27 /\ f[Len(f)] = 92
             /\ \A i \in 3..Len(f) - 2 : f[i] # 27
TermDec(f) == SubSeq(f, 3, Len(f) - 2)
\* the frames in a stream: after ESC _ up to ESC \
TermStream(s) ==
    LET RECURSIVE F(_, _, _, _)
        F(i, in, cur, acc) ==
            IF i > Len(s) THEN acc
            ELSE IF ~in THEN IF s[i] = 27 /\ i < Len(s) /\ s[i + 1] = 95 THEN F(i + 2, TRUE, <<>>, acc)
                             ELSE IF s[i] = 27 THEN F(i + 2, FALSE, <<>>, acc) ELSE F(i + 1, FALSE, <<>>, acc)
            ELSE IF s[i] = 27 /\ i < Len(s)
                 THEN IF s[i + 1] = 92 THEN F(i + 2, FALSE, <<>>, Append(acc, cur)) ELSE F(i + 2, TRUE, cur \o <<27, s[i + 1]>>, acc)
                 ELSE F(i + 1, TRUE, Append(cur, s[i]), acc)
    IN F(1, FALSE, <<>>, <<>>)

\* --- Segmentation: every frame ends with C (to be continued) or E (end)
SegEnc(m, mtu) ==
    LET n == IF mtu = 0 THEN Len(m) + 1 ELSE IF mtu = 1 THEN 1 ELSE mtu - 1
        RECURSIVE F(_, _) F(r, acc) == IF Len(r) <= n THEN Append(acc, Append(r, 69))
                                       ELSE F(SubSeq(r, n + 1, Len(r)), Append(acc, Append(SubSeq(r, 1, n), 67)))
    IN F(m, <<>>)

\* --- CRC, most significant bit first
Crc8(m) ==
    LET RECURSIVE B(_, _), F(_, _)
        B(c, k) == IF k = 0 THEN c ELSE B(IF c >= 128 THEN (((c - 128) * 2) ^^ 166) ELSE c * 2, k - 1)
        F(i, c) == IF i > Len(m) THEN c ELSE F(i + 1, B(c ^^ m[i], 8))
    IN F(1, 255)
Crc16(m) ==
    LET RECURSIVE B(_, _), F(_, _)
        B(c, k) == IF k = 0 THEN c ELSE B(IF c >= 32768 THEN (((c - 32768) * 2) ^^ 47789) ELSE c * 2, k - 1)
        F(i, c) == IF i > Len(m) THEN c ELSE F(i + 1, B(c ^^ (m[i] * 256), 8))
    IN F(1, 65535)
Crc8Enc(m) == Append(m, Crc8(m))
Crc16Enc(m) == LET c == Crc16(m) IN m \o <<c \div 256, c % 256>>
Crc8Ok(f) == Len(f) >= 1 /\ Crc8(Front(f)) = Last(f)
Crc16Ok(f) == Len(f) >= 2 /\ Crc16(SubSeq(f, 1, Len(f) - 2)) = (f[Len(f) - 1] * 256) + f[Len(f)]

\* Decoding of one frame by a stack of layers (top first). State: acc = reassembly buffer of the
\* (at most one) segmentation layer. Result: [ok, up (has a message), m, acc]
StackDec(layers, frame, acc0) ==
    LET RECURSIVE F(_, _, _)
        F(i, f, acc) ==
            IF i = 0 THEN [ok |-> TRUE, up |-> TRUE, m |-> f, acc |-> acc]
            ELSE CASE layers[i] \in {"asc", "ASC"} -> F(i - 1, AscDec(f), acc)
                   [] layers[i] = "term" -> IF TermOk(f) THEN F(i - 1, TermDec(f), acc) ELSE [ok |-> FALSE, up |-> FALSE, m |-> f, acc |-> acc]
                   [] layers[i] = "crc8" -> IF Crc8Ok(f) THEN F(i - 1, Front(f), acc) ELSE [ok |-> FALSE, up |-> FALSE, m |-> f, acc |-> acc]
                   [] layers[i] = "crc16" -> IF Crc16Ok(f) THEN F(i - 1, SubSeq(f, 1, Len(f) - 2), acc) ELSE [ok |-> FALSE, up |-> FALSE, m |-> f, acc |-> acc]
                   [] layers[i] = "seg" ->
                        IF Len(f) = 0 THEN [ok |-> TRUE, up |-> FALSE, m |-> f, acc |-> acc]
                        ELSE IF Last(f) = 69 THEN F(i - 1, acc \o Front(f), <<>>)
                        ELSE IF Last(f) = 67 THEN [ok |-> TRUE, up |-> FALSE, m |-> f, acc |-> acc \o Front(f)]
                        ELSE [ok |-> FALSE, up |-> FALSE, m |-> f, acc |-> acc \o Front(f)]
                   [] OTHER -> F(i - 1, f, acc)
    IN F(Len(layers), frame, acc0)
================================================================================
