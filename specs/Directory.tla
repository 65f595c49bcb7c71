------------------------------- MODULE Directory -------------------------------
(* The binary directory: how the generator encodes the names of a store, and how it is
   searched and listed. Checked against the meaning of names (Names.tla), for all small
   sets of names and all short lookups. *)
EXTENDS Names, TLC
CONSTANTS Alphabet,     \* bytes used in names, without /
          MaxLen,       \* of a name
          MaxObjs,      \* names in a store
          LookAlphabet, MaxLook
VARIABLES names         \* a sequence of names
--------------------------------------------------------------------------------
Strings(A, n) == UNION {[1..k -> A] : k \in 0..n}
ValidName(s) == /\ s # <<>> /\ s[1] # Slash /\ s[Len(s)] # Slash
                /\ \A i \in 1..(Len(s) - 1) : ~(s[i] = Slash /\ s[i + 1] = Slash)
NameSet == {s \in Strings(Alphabet \cup {Slash}, MaxLen) : ValidName(s)}
\* The hierarchy. A node is [o |-> object, m |-> <<>>], or o = 0 and m is a function from character to node.
\* Ent: set of <<remaining characters, object>>
Leaf(i) == [o |-> i, m |-> <<>>]
Dict(f) == [o |-> 0, m |-> f]
IsDict(h) == h.o = 0
Key(e) == e[1][1]
RECURSIVE Tree(_)
Tree(ent) == IF \E e \in ent : e[1] = <<>> THEN Leaf((CHOOSE e \in ent : e[1] = <<>>)[2])
    ELSE Dict([c \in {Key(e) : e \in ent} |-> Tree({<<Tail(e[1]), e[2]>> : e \in {x \in ent : Key(x) = c}})])
Hierarchy(ns) == Tree({<<ns[i] \o <<0>>, i>> : i \in 1..Len(ns)})
\* A key 1000 + n means: skip n characters.
Skip(n) == 1000 + n
IsSkip(k) == k > 1000
TheKey(h) == CHOOSE k \in DOMAIN h.m : TRUE
Single(h) == IsDict(h) /\ Cardinality(DOMAIN h.m) = 1
Only(h, k) == Single(h) /\ k \in DOMAIN h.m
RECURSIVE Strip(_)
\* what becomes of child v of a dictionary, after it is stripped
Child(v) ==
    IF ~IsDict(v) \/ ~Single(v) THEN v
    ELSE LET k == TheKey(v) vv == v.m[k] IN
        IF k = 0 THEN v
        ELSE IF k = Slash THEN
            IF IsDict(vv) /\ Single(vv) /\ ~IsSkip(TheKey(vv)) /\ Only(vv.m[TheKey(vv)], 0) THEN vv.m[TheKey(vv)] ELSE v
        ELSE IF IsDict(vv) /\ Single(vv) THEN
            LET kk == TheKey(vv) IN
            IF IsSkip(kk) THEN Dict([x \in {kk + 1} |-> vv.m[kk]])
            ELSE IF kk \in {0, Slash} THEN vv
            ELSE v
        ELSE Dict([x \in {Skip(1)} |-> vv])
Strip(h) == IF ~IsDict(h) THEN h
    ELSE IF Only(h, 0) THEN h
    ELSE IF Only(h, Slash) THEN Dict([x \in {Slash} |-> Strip(h.m[Slash])])
    ELSE Dict([k \in DOMAIN h.m |-> Child(Strip(h.m[k]))])
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN <<m>> \o Sorted(S \ {m})
RECURSIVE Enc(_)
Enc(i) == IF i < 128 THEN <<i>> ELSE LET r == Enc(i \div 128) IN [j \in 1..Len(r) |-> IF r[j] < 128 THEN r[j] + 128 ELSE r[j]] \o <<i % 128>>
RECURSIVE Skips(_)
Skips(n) == IF n = 0 THEN <<>> ELSE IF n > 31 THEN <<31>> \o Skips(n - 31) ELSE <<n>>
\* the code of a dictionary; an object is <<128 + type, number>>
RECURSIVE Code(_)
Code(h) ==
    IF ~IsDict(h) THEN <<128 + 56>> \o Enc(h.o)
    ELSE LET ks == Sorted(DOMAIN h.m) n == Len(ks) IN
        IF n = 0 THEN <<0>>
        ELSE IF ks = <<0>> THEN Code(h.m[0])
        ELSE IF ks = <<Slash>> THEN <<Slash>> \o Code(h.m[Slash])
        ELSE IF n = 1 /\ IsSkip(ks[1]) THEN Skips(ks[1] - 1000) \o Code(h.m[ks[1]])
        ELSE LET p0 == (n \div 2) + 1
                 dummy == ks[p0] = Slash /\ ~(p0 > 1 /\ ks[p0 - 1] # 0) /\ p0 = n
                 p == IF ks[p0] # Slash THEN p0 ELSE IF p0 > 1 /\ ks[p0 - 1] # 0 THEN p0 - 1 ELSE IF p0 < n THEN p0 + 1 ELSE p0
                 pc == IF dummy THEN Slash - 1 ELSE ks[p]
                 sub(S) == LET c == Code(Dict([k \in S |-> h.m[k]])) IN IF c = <<0>> THEN <<>> ELSE c
                 e == IF dummy THEN <<0>> ELSE Code(h.m[pc])
                 el == sub({k \in DOMAIN h.m : k < pc})
                 eg == sub({k \in DOMAIN h.m : k > pc})
                 jg == IF eg = <<>> THEN <<0>> ELSE Enc(Len(e) + Len(el) + 1)
                 jl == IF el = <<>> THEN <<0>> ELSE Enc(Len(jg) + Len(e) + 1)
             IN <<pc>> \o jl \o jg \o e \o el \o eg
Short(ns) == <<Slash>> \o Code(Strip(Hierarchy(ns))) \o <<0>>
Long(ns) == <<Slash>> \o Code(Hierarchy(ns)) \o <<0>>
--------------------------------------------------------------------------------
\* Decoding: value and position after an integer
RECURSIVE Dec(_, _, _)
Dec(d, p, v) == IF d[p] >= 128 THEN Dec(d, p + 1, (v + (d[p] - 128)) * 128) ELSE <<v + d[p], p + 1>>
\* find: position p in the directory, i in the name
RECURSIVE Find(_, _, _, _)
Find(d, p, s, i) ==
    LET end == i > Len(s) IN
    IF d[p] = 0 THEN 0
    ELSE IF d[p] >= 128 THEN Dec(d, p + 1, 0)[1]
    ELSE IF d[p] <= 31 THEN
        LET k == Find1(SubSeq(s, i, Len(s)), Slash, 1) - 1 IN     \* characters left in this scope
        IF end \/ k < d[p] THEN 0 ELSE Find(d, p + 1, s, i + d[p])
    ELSE IF d[p] = Slash THEN
        LET k == Find1(SubSeq(s, i, Len(s)), Slash, 1) IN Find(d, p + 1, s, IF i + k > Len(s) + 1 THEN Len(s) + 1 ELSE i + k)
    ELSE LET c == IF end THEN 0 ELSE s[i] IN
        IF c < d[p] THEN IF d[p + 1] = 0 THEN 0 ELSE LET j == Dec(d, p + 1, 0) IN Find(d, j[2] + j[1] - 1, s, i)
        ELSE LET q == Dec(d, p + 1, 0)[2] IN
            IF c > d[p] THEN IF d[q] = 0 THEN 0 ELSE LET j == Dec(d, q, 0) IN Find(d, j[2] + j[1] - 1, s, i)
            ELSE Find(d, Dec(d, q, 0)[2], s, i + 1)
\* list: set of <<name, object>>; a list of 0s is the end
RECURSIVE List(_, _, _)
List(d, p, nm) ==
    IF d[p] = 0 THEN <<>>
    ELSE IF d[p] >= 128 THEN <<<<nm, Dec(d, p + 1, 0)[1]>>>>
    ELSE IF d[p] <= 31 THEN List(d, p + 1, nm \o [i \in 1..d[p] |-> 63])
    ELSE IF d[p] = Slash THEN List(d, p + 1, nm \o <<Slash>>)
    ELSE LET l == Dec(d, p + 1, 0) g == Dec(d, l[2], 0) IN
        (IF l[1] = 0 THEN List(d, l[2] - 1, nm) ELSE List(d, l[2] + l[1] - 1, nm))
        \o (IF g[1] = 0 THEN List(d, g[2] - 1, nm) ELSE List(d, g[2] + g[1] - 1, nm))
        \o List(d, g[2], nm \o <<d[p]>>)
--------------------------------------------------------------------------------
Init == names = <<>>
\* add a name; in order, to avoid permutations
After(x, y) == \/ Len(x) < Len(y)
               \/ Len(x) = Len(y) /\ \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
Next == /\ Len(names) < MaxObjs
        /\ \E s \in NameSet : (IF names = <<>> THEN TRUE ELSE After(names[Len(names)], s)) /\ names' = Append(names, s)
Spec == Init /\ [][Next]_names
Objs == [i \in 1..Len(names) |-> [sc |-> SplitAt(names[i], Slash)]]
Looks == Strings(LookAlphabet, MaxLook)
\* every lookup yields what the names mean, in both directories
FindShort == names # <<>> => (LET d == Short(names) o == Objs IN \A s \in Looks : Find(d, 1, <<Slash>> \o s, 1) \in Results(o, Scopes(<<Slash>> \o s)))
\* the full directory is not meant for abbreviations, but must not return something else
FindLong == names # <<>> => LET d == Long(names) o == Objs IN \A s \in Looks : Find(d, 1, <<Slash>> \o s, 1) \in Can(o, Scopes(<<Slash>> \o s)) \cup {0}
FindOwn == \A i \in 1..Len(names) : Find(Short(names), 1, <<Slash>> \o names[i], 1) = i /\ Find(Long(names), 1, <<Slash>> \o names[i], 1) = i
\* the list has every object once, by its full name
ListAll == names # <<>> => LET L == List(Long(names), 1, <<>>) IN
    /\ Len(L) = Len(names)
    /\ {L[i] : i \in 1..Len(L)} = {<<<<Slash>> \o names[i], i>> : i \in 1..Len(names)}
================================================================================
