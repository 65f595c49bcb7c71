-------------------------------- MODULE Saturate --------------------------------
(* Saturated casts to integers: rounded half away from zero, limited to the range.
   Numbers are a sign and a sequence of decimal digits. *)
EXTENDS Naturals, Sequences
RECURSIVE Inc(_)
Inc(d) == IF d = <<>> THEN <<1>> ELSE IF d[Len(d)] < 9 THEN [d EXCEPT ![Len(d)] = @ + 1] ELSE Append(Inc(SubSeq(d, 1, Len(d) - 1)), 0)
RECURSIVE Lex(_, _, _)
Lex(a, b, i) == IF i > Len(a) THEN FALSE ELSE IF a[i] # b[i] THEN a[i] > b[i] ELSE Lex(a, b, i + 1)
Gt(a, b) == IF Len(a) # Len(b) THEN Len(a) > Len(b) ELSE Lex(a, b, 1)
D8 == <<1,2,7>>
D16 == <<3,2,7,6,7>>
D32 == <<2,1,4,7,4,8,3,6,4,7>>
D64 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
U8 == <<2,5,5>>
U16 == <<6,5,5,3,5>>
U32 == <<4,2,9,4,9,6,7,2,9,5>>
U64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
Hi(t) == CASE t = "i8" -> D8 [] t = "u8" -> U8 [] t = "i16" -> D16 [] t = "u16" -> U16 [] t = "i32" -> D32 [] t = "u32" -> U32 [] t = "i64" -> D64 [] t = "u64" -> U64
Signed(t) == t \in {"i8", "i16", "i32", "i64"}
Lo(t) == IF Signed(t) THEN Inc(Hi(t)) ELSE <<0>>
\* [neg, d]
Sat(t, neg, d, half) ==
    LET m == IF half THEN Inc(d) ELSE d
        z == [neg |-> FALSE, d |-> <<0>>]
    IN IF m = <<0>> THEN z
       ELSE IF t = "bool" THEN [neg |-> FALSE, d |-> <<1>>]
       ELSE IF neg THEN IF ~Signed(t) THEN z ELSE [neg |-> TRUE, d |-> IF Gt(m, Lo(t)) THEN Lo(t) ELSE m]
       ELSE [neg |-> FALSE, d |-> IF Gt(m, Hi(t)) THEN Hi(t) ELSE m]
================================================================================
