--------------------------------- MODULE Names ---------------------------------
(* Meaning of object names. A name is a list of scopes, each a list of byte values.
   A lookup string is turned in the same form. Objects are records with field sc. *)
EXTENDS Naturals, Sequences, FiniteSets
Slash == 47
\* position of the first c in s from position i; Len(s)+1 if there is none
RECURSIVE Find1(_, _, _)
Find1(s, c, i) == IF i > Len(s) THEN i ELSE IF s[i] = c THEN i ELSE Find1(s, c, i + 1)
RECURSIVE SplitAt(_, _)
SplitAt(s, c) == LET k == Find1(s, c, 1) IN
    IF k > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, k - 1)>> \o SplitAt(SubSeq(s, k + 1, Len(s)), c)
Rest(s, k) == SubSeq(s, k, Len(s))
\* a C string: up to the first zero
CStr(s) == SubSeq(s, 1, Find1(s, 0, 1) - 1)
\* scopes of a string; everything before the first separator is not part of it
Scopes(s0) == LET s == CStr(s0) IN LET k == Find1(s, Slash, 1) IN IF k > Len(s) THEN <<>> ELSE SplitAt(Rest(s, k + 1), Slash)
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* symbol at position j of scope i: a character, the end of the scope, or the end of the name
Sym(sc, i, j) == IF i > Len(sc) THEN 0
    ELSE IF j <= Len(sc[i]) THEN sc[i][j]
    ELSE IF i < Len(sc) THEN Slash ELSE 0
\* first position where two different names differ
RECURSIVE DiffIn(_, _, _)
DiffIn(a, b, j) == IF j <= Len(a) /\ j <= Len(b) /\ a[j] = b[j] THEN DiffIn(a, b, j + 1) ELSE j
RECURSIVE Diff(_, _, _)
Diff(a, b, i) == IF a[i] = b[i] /\ i < Len(a) /\ i < Len(b) THEN Diff(a, b, i + 1) ELSE <<i, DiffIn(a[i], b[i], 1)>>
\* The lookup agrees with object o where it differs from object p. The end of a name or scope
\* only has to differ from the other name.
Agrees(ss, o, p) == LET d == Diff(o, p, 1)
                        c == Sym(ss, d[1], d[2])
                        x == Sym(o, d[1], d[2])
                        y == Sym(p, d[1], d[2])
                    IN c = x \/ (x \in {0, Slash} /\ c # y)
\* objects (indices) that may be returned by the lookup of ss
Can(objs, ss) == {o \in 1..Len(objs) : \A p \in 1..Len(objs) : p # o => Agrees(ss, objs[o].sc, objs[p].sc)}
\* The object must be found: full name, or every scope abbreviated to an unambiguous part (which
\* it is not if it is both an object and a scope).
Full(objs, ss) == {o \in 1..Len(objs) : objs[o].sc = ss}
Abbrev(objs, ss) == {o \in 1..Len(objs) : LET oc == objs[o].sc IN
    /\ Len(oc) = Len(ss)
    /\ \A i \in 1..Len(ss) :
        \/ ss[i] = oc[i]
        \/ /\ ss[i] # <<>> /\ IsPrefix(ss[i], oc[i])
           /\ \A p \in 1..Len(objs) : LET pc == objs[p].sc IN
                (Len(pc) >= i /\ SubSeq(pc, 1, i - 1) = SubSeq(oc, 1, i - 1) /\ IsPrefix(ss[i], pc[i])) => (pc[i] = oc[i] /\ (Len(pc) = i <=> Len(oc) = i))}
Must(objs, ss) == LET f == Full(objs, ss) IN IF f # {} THEN f ELSE Abbrev(objs, ss)
\* allowed results; 0: not found
Results(objs, ss) == LET m == Must(objs, ss) IN IF m # {} THEN m ELSE Can(objs, ss) \cup {0}
================================================================================
