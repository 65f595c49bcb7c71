------------------------------- MODULE StoreTrace -------------------------------
(* Conformance of generated stores with their definition (C12, C13). *)
EXTENDS Store, TraceLib
VARIABLES l, objs, ord, val
vars == <<l, objs, ord, val>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Init == l = 1 /\ objs = <<>> /\ ord = <<>> /\ val = <<>>
TrInit == Is("init") /\ objs' = E.objs /\ ord' = <<>> /\ val' = [i \in 1..Len(E.objs) |-> E.objs[i].v]
Range(f) == {f[i] : i \in DOMAIN f}
\* Exactly the defined objects are listed. ord: the object of every listed one.
TrList ==
    /\ Is("list")
    /\ Len(E.l) = Len(objs)
    /\ E.oc = Len(objs)
    /\ E.fc = Cardinality({i \in 1..Len(objs) : IsFunction(objs[i].t)})
    /\ E.vc = Cardinality({i \in 1..Len(objs) : ~IsFunction(objs[i].t)})
    /\ LET byname == [i \in 1..Len(objs) |-> FullName(objs[i])]
           match(k) == {i \in 1..Len(objs) : byname[i] = E.l[k].nm}
       IN /\ \A k \in 1..Len(E.l) : match(k) # {}
          /\ LET o == [k \in 1..Len(E.l) |-> CHOOSE i \in match(k) : TRUE] IN
             /\ Cardinality(Range(o)) = Len(objs)
             /\ \A k \in 1..Len(E.l) : E.l[k].t = objs[o[k]].t /\ E.l[k].n = objs[o[k]].n
             /\ ord' = o
    /\ UNCHANGED <<objs, val>>
At(k) == IF k = 0 THEN 0 ELSE ord[k]
TrFind ==
    /\ Is("find") /\ UNCHANGED <<objs, ord, val>>
    /\ E.r >= 0
    /\ At(E.r) \in Results(objs, Scopes(E.s))
Called(o) == IF IsFunction(objs[o].t) THEN <<Join(objs[o].sc)>> ELSE <<>>
\* everything has the value that was last written, or the initial value; functions are called
TrVals ==
    /\ Is("vals") /\ UNCHANGED <<objs, ord, val>>
    /\ \A k \in 1..Len(ord) : (E.v[k] = val[ord[k]]) \/ (~E.m /\ IsFunction(objs[ord[k]].t))
    /\ E.m => \A k \in 1..Len(ord) : E.c[k] = Called(ord[k])
TrSet ==
    /\ Is("set") /\ UNCHANGED <<objs, ord>>
    /\ LET o == ord[E.i] IN
        /\ val' = IF IsFunction(objs[o].t) /\ ~E.m THEN val ELSE [val EXCEPT ![o] = Stored(objs[o], val[o], E.b)]
        /\ E.m => E.c = Called(o)
TrTset ==
    /\ Is("tset") /\ UNCHANGED <<objs, ord>>
    /\ \E o \in Named(objs, E.nm) : val' = [val EXCEPT ![o] = E.b] /\ E.c = Called(o)
TrTget ==
    /\ Is("tget") /\ UNCHANGED <<objs, ord, val>>
    /\ \E o \in Named(objs, E.nm) : E.b = val[o] /\ E.c = Called(o)
\* variables are aligned, do not overlap, and have different keys
Align(o) == IF ~IsFixed(o.t) THEN 1 ELSE o.n
TrLay ==
    /\ Is("lay") /\ UNCHANGED <<objs, ord, val>>
    /\ LET V == {k \in 1..Len(ord) : ~IsFunction(objs[ord[k]].t)} IN
        /\ \A k \in V : E.a[k].m % Align(objs[ord[k]]) = 0
        /\ \A j \in V, k \in V : j < k => \/ E.a[j].o + Room(objs[ord[j]]) <= E.a[k].o
                                          \/ E.a[k].o + Room(objs[ord[k]]) <= E.a[j].o
        /\ \A j \in V, k \in V : E.a[k].k - E.a[j].k = E.a[k].o - E.a[j].o
\* the member that belongs to a name is that object
TrMem ==
    /\ Is("mem") /\ UNCHANGED <<objs, ord, val>>
    /\ \A x \in 1..Len(E.m) : E.m[x].i > 0 /\ ord[E.m[x].i] \in Named(objs, E.m[x].nm)
\* the array accessor gives the object with this index, nothing when out of bounds
TrArr ==
    /\ Is("arr") /\ UNCHANGED <<objs, ord, val>>
    /\ \A x \in 1..Len(E.m) : IF E.m[x].nm = <<>> THEN E.m[x].i = 0 ELSE E.m[x].i > 0 /\ ord[E.m[x].i] \in Named(objs, E.m[x].nm)
\* Documentation (csv and Python): same objects, types and initial values.
TrDoc ==
    /\ Is("doc") /\ UNCHANGED <<objs, ord, val>>
    /\ Len(E.d) = Len(objs)
    /\ \A x \in 1..Len(E.d) : \E o \in Named(objs, E.d[x].nm) :
        /\ E.d[x].t = objs[o].t /\ E.d[x].n = objs[o].n
        /\ (Has(E.d[x], "v") => E.d[x].v = objs[o].v)
    /\ Cardinality({E.d[x].nm : x \in 1..Len(E.d)}) = Len(objs)
\* the hash is the same for every generation of the definition (h), and different from others (o)
TrHash == Is("hash") /\ UNCHANGED <<objs, ord, val>> /\ (Has(E, "w") => \A i \in 1..Len(E.w) : E.w[i] = E.h) /\ (Has(E, "o") => \A i \in 1..Len(E.o) : E.o[i] # E.h)
Next == TrInit \/ TrList \/ TrFind \/ TrVals \/ TrSet \/ TrTset \/ TrTget \/ TrLay \/ TrMem \/ TrArr \/ TrDoc \/ TrHash
Spec == Init /\ [][Next]_vars
================================================================================
