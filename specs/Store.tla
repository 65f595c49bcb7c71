--------------------------------- MODULE Store ---------------------------------
(* What a store definition means: a set of objects, each with its name (sc: scopes), type t,
   size n and value v (initially as defined). *)
EXTENDS Names
IsFunction(t) == (t \div 64) % 2 = 1
Base(t) == t % 64
IsFixed(t) == (t \div 32) % 2 = 1
IsString(t) == Base(t) = 2
\* number of bytes in the buffer
Room(o) == IF IsFunction(o.t) THEN 0 ELSE IF IsString(o.t) THEN o.n + 1 ELSE o.n
\* value after storing b
Stored(o, v, b) ==
    IF IsString(o.t) THEN LET c == CStr(b) IN SubSeq(c, 1, IF Len(c) < o.n THEN Len(c) ELSE o.n)
    ELSE IF Len(b) >= o.n THEN SubSeq(b, 1, o.n) ELSE b \o SubSeq(v, Len(b) + 1, Len(v))
\* the full name, as bytes
RECURSIVE Join(_)
Join(sc) == IF Len(sc) = 1 THEN sc[1] ELSE sc[1] \o <<Slash>> \o Join(Tail(sc))
FullName(o) == <<Slash>> \o Join(o.sc)
\* what is written and read as full name
Named(objs, s) == {i \in 1..Len(objs) : FullName(objs[i]) = s \/ Join(objs[i].sc) = s}
================================================================================
