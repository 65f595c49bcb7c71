------------------------------- MODULE HooksTrace -------------------------------
(* Accesses of objects of two stores of the same kind (C14). mem[s][o] are the bytes in the buffer of
   a variable; for a function it is its register. Every access is one step, which determines the
   sequence of hooks and callbacks, the content the object has at every hook, the bytes that are
   transferred, and the new content. *)
EXTENDS Store, TraceLib
VARIABLES l, objs, sw, mem, dirty, conn
vars == <<l, objs, sw, mem, dirty, conn>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Init == l = 1 /\ objs = <<>> /\ sw = FALSE /\ mem = <<>> /\ dirty = <<>> /\ conn = FALSE
Var(o) == ~IsFunction(objs[o].t)
Zeros(n) == [i \in 1..n |-> 0]
(* dirty[s][o]: up to where the content of o has changed since it was last sent *)
TrInit ==
    /\ Is("init") /\ objs' = E.objs /\ sw' = E.sw
    /\ mem' = [s \in 1..2 |-> [o \in 1..Len(E.objs) |->
            IF IsFunction(E.objs[o].t) THEN (IF IsString(E.objs[o].t) THEN <<>> ELSE Zeros(E.objs[o].n))
            ELSE LET d == CHOOSE i \in 1..Len(E.d) : E.d[i].s = s /\ E.d[i].o = o IN E.d[d].b]]
    /\ dirty' = [s \in 1..2 |-> [o \in 1..Len(E.objs) |-> 0]] /\ conn' = FALSE

Clean == [s \in 1..2 |-> [o \in 1..Len(objs) |-> 0]]
Reverse(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
\* between value and memory
Order(o, b) == IF sw /\ Var(o) /\ IsFixed(objs[o].t) THEN Reverse(b) ELSE b
Take(b, n) == SubSeq(b, 1, Min(n, Len(b)))
Over(b, old) == b \o SubSeq(old, Len(b) + 1, Len(old))
\* the content after writing value v, given the content before
Written(o, old, v) ==
    IF IsString(objs[o].t) THEN LET c == Take(CStr(v), objs[o].n) IN
        IF Var(o) THEN (IF CStr(old) = c THEN old ELSE Over(Append(c, 0), old)) ELSE c
    ELSE Over(Order(o, Take(v, objs[o].n)), old)
\* what reading at most n bytes gives
Read(o, old, n) ==
    IF IsString(objs[o].t) THEN Take(CStr(old), n)
    ELSE Order(o, Take(old, IF IsFixed(objs[o].t) THEN objs[o].n ELSE n))

\* a hook of object o of store s, with content b
H(x, k, s, o, b) == x.k = k /\ x.s = s /\ x.o = o /\ (k = "cb" \/ x.t = objs[o].t) /\ x.b = b
\* the length covers what is accessed, and is not more than the object
Fits(x, o, n) == IF IsFixed(objs[o].t) THEN x.n = objs[o].n ELSE x.n >= n /\ x.n <= Room(objs[o])
Reading(h, s, o, n) ==
    /\ Len(h) = 2
    /\ H(h[1], "ER", s, o, mem[s][o]) /\ H(h[2], "XR", s, o, mem[s][o])
    /\ Fits(h[1], o, n) /\ h[2].n = h[1].n
Changed(a, b) == {i \in 1..Len(a) : a[i] # b[i]}
LastChange(a, b) == LET ch == Changed(a, b) IN IF ch = {} THEN 0 ELSE CHOOSE i \in ch : \A j \in ch : j <= i
Touch(s, o, new) == dirty' = [dirty EXCEPT ![s][o] = LET n == LastChange(mem[s][o], new) IN IF n > @ THEN n ELSE @]
Writing(h, s, o, new) ==
    LET old == mem[s][o]
        ch == Changed(old, new)
        n == LastChange(old, new)
    IN
    /\ Len(h) = IF ch = {} THEN 2 ELSE 4
    /\ H(h[1], "EX", s, o, old) /\ H(h[2], "XX", s, o, new)
    /\ Fits(h[1], o, n) /\ h[2].n = h[1].n
    /\ h[2].c = IF ch = {} THEN 0 ELSE 1
    /\ ch # {} => /\ H(h[3], "CH", s, o, new) /\ h[3].n = h[2].n
                  /\ H(h[4], "cb", s, o, new)
Calling(h, s, o, set, v) ==
    /\ Len(h) = 1 /\ h[1].k = "fn" /\ h[1].s = s /\ h[1].o = o
    /\ h[1].c = IF set THEN 1 ELSE 0
    /\ h[1].b = v
\* nothing but object o of store s changed
Only(d, s, o, new) == IF new = mem[s][o] THEN d = <<>> ELSE Len(d) = 1 /\ d[1].s = s /\ d[1].o = o /\ d[1].b = new
Set(s, o, v, h, d) ==
    LET new == Written(o, mem[s][o], v) IN
    /\ mem' = [mem EXCEPT ![s][o] = new]
    /\ IF Var(o) THEN /\ Writing(h, s, o, new) /\ Only(d, s, o, new)
                      /\ Touch(s, o, new)
       ELSE /\ Calling(h, s, o, TRUE, IF IsString(objs[o].t) THEN new ELSE Take(v, objs[o].n)) /\ d = <<>> /\ UNCHANGED dirty
Get(s, o, n, h, d) ==
    /\ d = <<>> /\ UNCHANGED <<mem, dirty>>
    /\ IF Var(o) THEN Reading(h, s, o, Len(Read(o, mem[s][o], n)))
       ELSE Calling(h, s, o, FALSE, Take(mem[s][o], n))

\* pointers have no typed accessor here
Valid == E.acc \notin {"invalid", "overrun", "badlen"}
TrSet ==
    /\ Is("set") /\ UNCHANGED <<objs, sw, conn>> /\ Valid
    /\ IF E.acc = "none" THEN E.h = <<>> /\ E.d = <<>> /\ UNCHANGED <<mem, dirty>>
       ELSE Set(E.s, E.o, E.v, E.h, E.d)
TrGet ==
    /\ Is("get") /\ UNCHANGED <<objs, sw, conn>> /\ Valid
    /\ IF E.acc = "none" THEN E.h = <<>> /\ E.d = <<>> /\ UNCHANGED <<mem, dirty>>
       ELSE /\ Get(E.s, E.o, E.n, E.h, E.d)
            /\ E.v = (IF Var(E.o) THEN Read(E.o, mem[E.s][E.o], E.n) ELSE Take(mem[E.s][E.o], E.n))
TrCmd ==
    /\ Is("dcmd") /\ UNCHANGED <<objs, sw, conn>> /\ E.ok
    /\ IF E.set THEN Set(E.s, E.o, E.v, E.h, E.d) ELSE Get(E.s, E.o, objs[E.o].n, E.h, E.d)
\* the other store gets the content; both are entered
TrCopy ==
    /\ Is("copy") /\ UNCHANGED <<objs, sw, conn>>
    /\ LET s == E.s  t == 3 - E.s  o == E.o
           new == IF IsString(objs[o].t) THEN (IF CStr(mem[t][o]) = CStr(mem[s][o]) THEN mem[t][o] ELSE Over(Append(CStr(mem[s][o]), 0), mem[t][o])) ELSE mem[s][o]
           hs == SelectSeq(E.h, LAMBDA x : x.s = s)
           ht == SelectSeq(E.h, LAMBDA x : x.s = t)
       IN /\ Reading(hs, s, o, IF IsString(objs[o].t) THEN Len(CStr(mem[s][o])) ELSE objs[o].n)
          /\ Writing(ht, t, o, new)
          /\ Only(E.d, t, o, new)
          /\ mem' = [mem EXCEPT ![t][o] = new]
          /\ Touch(t, o, new)

(* Synchronization: s sends all/dirty objects, which are entered read-only (the type may be omitted);
   the other store gets the contents, and its change callbacks. *)
Bracket(h, s, o) ==
    LET x == SelectSeq(h, LAMBDA e : e.s = s /\ e.o = o /\ e.k \in {"ER", "XR"}) IN
    /\ Len(x) = 2 /\ x[1].k = "ER" /\ x[2].k = "XR"
    /\ x[1].n = x[2].n /\ x[1].n <= Room(objs[o])
    /\ x[1].b = mem[s][o] /\ x[2].b = mem[s][o]
    /\ x[1].n >= (IF conn \/ IsString(objs[o].t) THEN dirty[s][o] ELSE objs[o].n)
Report(h, t, o) ==
    LET x == SelectSeq(h, LAMBDA e : e.s = t /\ e.o = o /\ e.k \in {"CH", "cb"}) IN
    /\ Len(x) = 2 /\ x[1].k = "CH" /\ x[2].k = "cb"
    /\ x[1].b = mem'[t][o] /\ x[2].b = mem'[t][o]
Dirty(s) == {o \in 1..Len(objs) : dirty[s][o] > 0}
Vars == {o \in 1..Len(objs) : Var(o)}
\* the other store of s gets the contents os[s], for every s
Transfer(os) ==
    LET to(t, o) == o \in os[3 - t]
        new(t, o) == LET i == {j \in 1..Len(E.d) : E.d[j].s = t /\ E.d[j].o = o} IN
            IF i = {} THEN mem[t][o] ELSE E.d[CHOOSE j \in i : TRUE].b
    IN
    /\ \A j \in 1..Len(E.d) : to(E.d[j].s, E.d[j].o)
    /\ mem' = [t \in 1..2 |-> [o \in 1..Len(objs) |-> IF to(t, o) THEN new(t, o) ELSE mem[t][o]]]
    /\ \A s \in 1..2 : \A o \in os[s] :
        /\ LET n == (CHOOSE i \in 1..Len(E.h) : E.h[i].s = s /\ E.h[i].o = o /\ E.h[i].k = "ER") IN
           IF IsString(objs[o].t) THEN CStr(new(3 - s, o)) = CStr(mem[s][o])
           ELSE new(3 - s, o) = Over(SubSeq(mem[s][o], 1, E.h[n].n), mem[3 - s][o])
        /\ Bracket(E.h, s, o) /\ Report(E.h, 3 - s, o)
    /\ Len(E.h) = 4 * (Cardinality(os[1]) + Cardinality(os[2]))
\* the first time all is sent; later, the stores are connected already
Nothing == E.h = <<>> /\ E.d = <<>> /\ UNCHANGED <<mem, dirty>>
TrSync ==
    /\ Is("sync") /\ UNCHANGED <<objs, sw>> /\ conn' = TRUE
    /\ IF conn THEN Nothing
       ELSE Transfer([s \in 1..2 |-> IF s = E.s THEN Vars ELSE {}]) /\ dirty' = Clean
TrProc ==
    /\ Is("proc") /\ UNCHANGED <<objs, sw, conn>>
    /\ IF ~conn \/ Dirty(E.s) = {} THEN Nothing
       \* the other one sends what it has changed before it takes the update
       ELSE Transfer([s \in 1..2 |-> Dirty(s)]) /\ dirty' = Clean
Next == TrInit \/ TrSet \/ TrGet \/ TrCmd \/ TrCopy \/ TrSync \/ TrProc
Spec == Init /\ [][Next]_vars
================================================================================
