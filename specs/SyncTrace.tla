-------------------------------- MODULE SyncTrace --------------------------------
(* Recorded executions of real Synchronizers against SyncCore, at the level of bytes:
   the content of stores, and the messages on the connections. *)
EXTENDS TraceLib, SyncCore
VARIABLES l, N, chan, st, up, dn, conn, mapped, raced,
    loose \* <<n, s>>: n got updates of s that do not match the objects; its later updates may include more than the objects that changed
vars == <<l, N, chan, st, up, dn, conn, mapped, raced, loose>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Nodes == DOMAIN N
Stores == DOMAIN st
Links == DOMAIN up
Other(n, k) == IF up[k] = n THEN dn[k] ELSE up[k]
ConnsOf(n) == {k \in Links : up[k] = n \/ dn[k] = n}
MaxLinks == 6

\* ---- wire format
LE2(x) == <<x % 256, x \div 256>>
U2(b, i) == IF Len(b) < i + 1 THEN 0 ELSE b[i] + 256 * b[i + 1]
KeySize(s) == IF Len(st[s].buf) < 256 THEN 1 ELSE IF Len(st[s].buf) < 65536 THEN 2 ELSE 4
\* values that do not fit a (small) integer are beyond any store
Num(b, i, k) == CASE k = 1 -> b[i] [] k = 2 -> b[i] + 256 * b[i + 1]
                  [] OTHER -> IF b[i + 3] > 0 THEN 16777216 ELSE b[i] + (256 * b[i + 1]) + (65536 * b[i + 2])
Enc(m, s) == CASE m.t = "h" -> <<104>> \o st[s].hash \o LE2(m.id)
               [] m.t = "w" -> <<119>> \o LE2(m.hid) \o LE2(m.id) \o m.buf
               [] m.t = "b" -> <<98>>
               [] m.t = "bi" -> <<98>> \o LE2(m.id)
               [] m.t = "bh" -> <<98>> \o m.h
\* Entries of an update: <<key, len>> with the data at b[pos..]
RECURSIVE Entries(_, _, _, _)
Entries(b, i, ks, size) ==
    IF i > Len(b) THEN [ok |-> TRUE, e |-> <<>>]
    ELSE IF Len(b) - i + 1 < 2 * ks THEN [ok |-> FALSE, e |-> <<>>]
    ELSE LET key == Num(b, i, ks)
             len == Num(b, i + ks, ks)
             p == i + (2 * ks)
         IN IF key + len > size \/ p + len - 1 > Len(b) THEN [ok |-> FALSE, e |-> <<>>]
            ELSE LET r == Entries(b, p + len, ks, size) IN [ok |-> r.ok, e |-> <<[key |-> key, len |-> len, pos |-> p]>> \o r.e]
RECURSIVE Data(_, _, _)
\* later entries override earlier ones
Data(b, es, d) == IF es = <<>> THEN d
    ELSE LET e == Head(es) IN Data(b, Tail(es), [i \in (e.key + 1)..(e.key + e.len) |-> b[e.pos + i - e.key - 1]] @@ d)
\* the rest is padding, which is in a Welcome only
ObjPos(s) == UNION {(o[1] + 1)..(o[1] + o[2]) : o \in {st[s].objs[j] : j \in DOMAIN st[s].objs}}
Ext(s, S) == S \cup UNION {(o[1] + 1)..(o[1] + o[2]) : o \in {o \in {st[s].objs[j] : j \in DOMAIN st[s].objs} : \E i \in S : o[1] < i /\ i <= o[1] + o[2]}}

\* ---- messages of the implementation
Txs(k) == SelectSeq(E.tx, LAMBDA x : x[1] = k)
TxIs(k, ms) == \* exactly these, in this order
    /\ Len(E.tx) = Len(ms)
    /\ \A i \in 1..Len(ms) : E.tx[i][1] = k /\ E.tx[i][2] = ms[i]
TxPerm(k, ms) == Len(E.tx) = Len(ms) /\ {E.tx[i] : i \in 1..Len(E.tx)} = {<<k, ms[i]>> : i \in 1..Len(ms)}
IsUpd(b) == Len(b) >= 3 /\ b[1] = 117
\* The update message b of store s over k by n is right
GoodUpd(n, k, s, b) ==
    LET u == Entries(b, 4, KeySize(s), Len(st[s].buf))
        X == UNION {(e.key + 1)..(e.key + e.len) : e \in {u.e[i] : i \in DOMAIN u.e}}
        c == N[n][s].c[k]
    IN /\ u.ok /\ Cardinality({u.e[i].key : i \in DOMAIN u.e}) = Len(u.e)
       /\ c.must \subseteq X /\ ((X \subseteq c.may /\ c.may # {}) \/ <<n, s>> \in loose)
       /\ \A i \in DOMAIN u.e : \A j \in 1..u.e[i].len : b[u.e[i].pos + j - 1] = N[n][s].buf[u.e[i].key + j]
\* The updates sent by n over these pairs <<k, s>>
Pairs(n, K, S) == {p \in (K \cap ConnsOf(n)) \X S : N[n][p[2]].c[p[1]].on}
\* (a peer may have given the same reference for two stores)
Ambiguous(p, n) == \E s \in Stores : s # p[2] /\ N[n][s].c[p[1]].on /\ N[n][s].c[p[1]].out = N[n][p[2]].c[p[1]].out
Ups(p, txs, n) == SelectSeq(txs, LAMBDA x : x[1] = p[1] /\ IsUpd(x[2]) /\ U2(x[2], 2) = N[n][p[2]].c[p[1]].out
    /\ (Ambiguous(p, n) => GoodUpd(n, p[1], p[2], x[2])))
Est(n, p) == N[n][p[2]].c[p[1]].out # 0
GoodProc(n, P, txs) == TRUE = (
    /\ \A p \in {p \in P : Est(n, p)} : LET u == Ups(p, txs, n) IN
          /\ Len(u) <= 1
          /\ IF u = <<>> THEN N[n][p[2]].c[p[1]].must = {} ELSE GoodUpd(n, p[1], p[2], u[1][2])
    /\ \A i \in DOMAIN txs : /\ IsUpd(txs[i][2])
                              /\ \E p \in P : p[1] = txs[i][1] /\ U2(txs[i][2], 2) = N[n][p[2]].c[p[1]].out)
SentAll(n, P, txs) == [s \in Stores |-> [N[n][s] EXCEPT !.c = [k \in DOMAIN @ |->
    IF <<k, s>> \in P /\ Est(n, <<k, s>>) /\ Ups(<<k, s>>, txs, n) # <<>> THEN [@[k] EXCEPT !.must = {}, !.may = {}] ELSE @[k]]]]

\* ---- after a step: the content and the connections as observed. M: new state of node n
\* (as values, such that TLC does not see a disjunction of actions in these)
Observed(n, M) ==
    /\ \A a \in Nodes : \A s \in Stores :
        LET ch == SelectSeq(E.ch, LAMBDA x : x[1] = a /\ x[2] = s)
            b == IF a = n THEN M[s].buf ELSE N[a][s].buf
        IN b = IF ch = <<>> THEN N[a][s].buf ELSE ch[1][3]
    /\ \A a \in Nodes : \A k \in Links : \A s \in Stores :
        E.on[a][k][s] = (IF a = n THEN M[s] ELSE N[a][s]).c[k].on
Post(n, M) == (Observed(n, M) = TRUE) /\ N' = [N EXCEPT ![n] = M]
Route(n, ch) == [a \in DOMAIN ch |-> [k \in DOMAIN ch[a] |->
    IF a # n /\ a # 0 /\ k \in ConnsOf(n) /\ Other(n, k) = a /\ conn[a][k]
    THEN ch[a][k] \o [i \in DOMAIN Txs(k) |-> Txs(k)[i][2]] ELSE ch[a][k]]]
OneStore(n, s, r) == [N[n] EXCEPT ![s] = r]
Same == UNCHANGED <<st, up, dn, conn, mapped>>

Init == l = 1 /\ N = <<>> /\ chan = <<>> /\ st = <<>> /\ up = <<>> /\ dn = <<>> /\ conn = <<>> /\ mapped = <<>> /\ raced = <<>> /\ loose = {}
New == /\ Is("init") /\ st' = E.stores /\ up' = <<>> /\ dn' = <<>>
       /\ N' = [n \in 1..E.nodes |-> [s \in 1..Len(E.stores) |-> NewNode(E.stores[s].buf, 1..E.links)]]
       /\ chan' = [n \in 1..E.nodes |-> [k \in 1..E.links |-> <<>>]]
       /\ conn' = [n \in 1..E.nodes |-> [k \in 1..E.links |-> FALSE]]
       /\ mapped' = [n \in 1..E.nodes |-> [s \in 1..Len(E.stores) |-> TRUE]]
       /\ raced' = [s \in 1..Len(E.stores) |-> {}]
NewLink == Is("link") /\ E.k = Len(up) + 1 /\ up' = Append(up, E.a) /\ dn' = Append(dn, E.b) /\ UNCHANGED <<N, chan, st, conn, mapped, raced>>
Conn == /\ Is("conn") /\ E.tx = <<>> /\ Post(E.n, N[E.n]) /\ conn' = [conn EXCEPT ![E.n][E.k] = TRUE]
        /\ chan' = [chan EXCEPT ![E.n][E.k] = <<>>] /\ UNCHANGED <<st, up, dn, mapped, raced>>
InIds(n, k, s) == {N[n][q].c[k].in : q \in {q \in Stores \ {s} : N[n][q].c[k].on}}
Src == /\ Is("src")
       /\ LET c == N[E.n][E.s].c[E.k] IN
          IF c.on \/ ~mapped[E.n][E.s] THEN E.tx = <<>> /\ Post(E.n, N[E.n])
          ELSE LET f == U2(E.tx[1][2], Len(E.tx[1][2]) - 1)
                   r == SyncFrom(N[E.n][E.s], E.k, f)
               IN /\ f # 0 /\ f \notin InIds(E.n, E.k, E.s)
                  /\ TxIs(E.k, <<Enc(r.o[1], E.s)>>) /\ Post(E.n, OneStore(E.n, E.s, r.n))
       /\ chan' = Route(E.n, chan) /\ Same /\ UNCHANGED raced
W == /\ Is("w") /\ E.tx = <<>>
     /\ LET ext(S) == Ext(E.s, S)
        IN Post(E.n, OneStore(E.n, E.s, Write(N[E.n][E.s], [i \in (E.o + 1)..(E.o + Len(E.b)) |-> E.b[i - E.o]], ext)))
     /\ Same /\ UNCHANGED <<chan, raced>>
Proc == /\ Is("proc")
        /\ LET P == Pairs(E.n, Links, {s \in Stores : mapped[E.n][s]}) IN GoodProc(E.n, P, E.tx) /\ Post(E.n, SentAll(E.n, P, E.tx))
        /\ chan' = Route(E.n, chan) /\ Same /\ UNCHANGED raced
Proc1 == /\ Is("proc1")
        /\ LET P == Pairs(E.n, {E.k}, IF E.s = 0 THEN {s \in Stores : mapped[E.n][s]} ELSE {E.s}) IN GoodProc(E.n, P, E.tx) /\ Post(E.n, SentAll(E.n, P, E.tx))
        /\ chan' = Route(E.n, chan) /\ Same /\ UNCHANGED raced

\* ---- a message b arrives at n over k
Ignore(n) == E.tx = <<>> /\ Post(n, N[n])
Zero(b) == IF \E i \in 2..Len(b) : b[i] = 0 THEN CHOOSE i \in 2..Len(b) : b[i] = 0 /\ \A j \in 2..(i - 1) : b[j] # 0 ELSE 0
StoreOf(n, h) == {s \in Stores : mapped[n][s] /\ st[s].hash = h}
ByIn(n, k, id) == {s \in Stores : N[n][s].c[k].on /\ N[n][s].c[k].in = id /\ id # 0}
ByOut(n, k, id) == {s \in Stores : N[n][s].c[k].on /\ N[n][s].c[k].out = id /\ id # 0}
Rest(b) == SubSeq(b, 2, Len(b))
OneRet(n, k, s, r) == TxIs(k, [i \in DOMAIN r.o |-> Enc(r.o[i], s)]) /\ Post(n, OneStore(n, s, r.n))
Ret2(n, k, f(_)) == \* on all stores
    LET R == [s \in Stores |-> f(s)]
        ms == {<<k, Enc(R[s].o[i], s)>> : <<s, i>> \in {<<s, i>> \in Stores \X (1..2) : i <= Len(R[s].o)}}
    IN /\ {E.tx[i] : i \in DOMAIN E.tx} = ms /\ Len(E.tx) = Cardinality(ms)
       /\ Post(n, [s \in Stores |-> R[s].n])
RxHello(n, k, b) ==
    LET z == Zero(b)
        id == IF z = 0 THEN 0 ELSE U2(b, z + 1)
        h == SubSeq(b, 2, z)
    IN IF id = 0 THEN Ignore(n)
       ELSE IF StoreOf(n, h) = {} THEN (IF Len(h) > 3 THEN TxIs(k, <<<<98>> \o h>>) ELSE E.tx = <<>>) /\ Post(n, N[n])
       ELSE LET s == CHOOSE s \in StoreOf(n, h) : TRUE
                f == U2(E.tx[1][2], 4)
            IN /\ Len(E.tx) = 1 /\ f # 0 /\ f \notin InIds(n, k, s)
               /\ OneRet(n, k, s, OnHello(N[n][s], k, [id |-> id], f))
RxWelcome(n, k, b) ==
    LET hid == U2(b, 2)
        wid == U2(b, 4)
        S == ByIn(n, k, hid)
    IN IF hid = 0 THEN Ignore(n)
       ELSE IF S = {} THEN TxIs(k, <<<<98>> \o LE2(hid)>>) /\ Post(n, N[n])
       ELSE LET s == CHOOSE s \in S : TRUE
                ok == wid # 0 /\ Len(b) - 5 >= Len(st[s].buf)
                ext(x) == Ext(s, x)
            IN OneRet(n, k, s, IF ~ok THEN Ret(Drop(N[n][s], k), <<[t |-> "bi", id |-> hid]>>)
                               ELSE OnWelcome(N[n][s], k, [hid |-> hid, id |-> wid, buf |-> SubSeq(b, 6, 5 + Len(st[s].buf))], ObjPos(s), ext))
\* changes are sent out first; a broken update is applied up to where it is broken (or not at all),
\* and ends the synchronization
RxUpdate(n, k, b) ==
    LET id == U2(b, 2)
        S == ByIn(n, k, id)
    IN IF id = 0 THEN Ignore(n)
       ELSE IF S = {} THEN TxIs(k, <<<<98>> \o LE2(id)>>) /\ Post(n, N[n])
       ELSE LET s == CHOOSE s \in S : TRUE
                u == Entries(b, 4, KeySize(s), Len(st[s].buf))
                ext(x) == Ext(s, x)
                bye == <<k, <<98>> \o LE2(id)>>
                pre == IF u.ok THEN E.tx ELSE SubSeq(E.tx, 1, Len(E.tx) - 1)
                M == SentAll(n, {<<k, s>>}, pre)
                keys == {u.e[i].key + 1 : i \in DOMAIN u.e}
                r(d) == LET w == OnUpdate(M[s], k, [id |-> id, d |-> d], {}, ext).n IN Touch(w, k, {}, ext(keys))
                d0 == Data(b, u.e, <<>>)
            IN /\ GoodProc(n, {<<k, s>>}, pre)
               /\ IF u.ok THEN Post(n, [M EXCEPT ![s] = r(d0)])
                  ELSE /\ E.tx # <<>> /\ E.tx[Len(E.tx)] = bye
                       /\ \/ Post(n, [M EXCEPT ![s] = Drop(r(d0), k)])
                          \/ Post(n, [M EXCEPT ![s] = Drop(M[s], k)])
RxBye(n, k, b) ==
    CASE Len(b) = 1 -> Ret2(n, k, LAMBDA s : OnBye(N[n][s], k))
      [] Len(b) = 3 -> LET S == ByOut(n, k, U2(b, 2)) IN
                       IF S = {} THEN Ignore(n)
                       ELSE \/ Ret2(n, k, LAMBDA s : IF s \in S THEN OnByeId(N[n][s], k, U2(b, 2)) ELSE [n |-> N[n][s], o |-> <<>>])
                            \/ \* a peer that wrongly uses the same reference twice
                               Cardinality(S) > 1 /\ \E s \in S : OneRet(n, k, s, OnByeId(N[n][s], k, U2(b, 2)))
      [] OTHER -> LET z == Zero(b)
                      S == IF z = 0 THEN {} ELSE StoreOf(n, SubSeq(b, 2, z))
                  IN IF S = {} THEN Ignore(n)
                     ELSE LET s == CHOOSE s \in S : TRUE IN OneRet(n, k, s, OnByeHash(N[n][s], k))
Rx(n, k, b) ==
    CASE b = <<>> -> Ignore(n)
      [] b # <<>> /\ b[1] = 104 -> RxHello(n, k, b)
      [] b # <<>> /\ b[1] = 119 -> RxWelcome(n, k, b)
      [] b # <<>> /\ b[1] = 117 -> RxUpdate(n, k, b)
      [] b # <<>> /\ b[1] = 98 -> RxBye(n, k, b)
      [] OTHER -> Ignore(n)
\* changes of the same position that pass each other on a link
UpdPos(s, b) == LET u == Entries(b, 4, KeySize(s), Len(st[s].buf)) IN UNION {(e.key + 1)..(e.key + e.len) : e \in {u.e[i] : i \in DOMAIN u.e}}
Race(n, k, b) == [s \in Stores |->
    IF ~(IsUpd(b) /\ s \in ByIn(n, k, U2(b, 2))) THEN raced[s]
    ELSE LET q == IF Other(n, k) = 0 THEN <<>> ELSE chan[Other(n, k)][k]
             f == UNION {UpdPos(s, q[i]) : i \in {i \in DOMAIN q : IsUpd(q[i]) /\ U2(q[i], 2) = N[n][s].c[k].out}}
         IN raced[s] \cup (UpdPos(s, b) \cap (f \cup N[n][s].c[k].may))]
RxEv == /\ Is("rx") /\ E.c = 1 /\ conn[E.n][E.k] /\ chan[E.n][E.k] # <<>> /\ Head(chan[E.n][E.k]) = E.b
        /\ Rx(E.n, E.k, E.b)
        /\ raced' = Race(E.n, E.k, E.b)
        /\ chan' = Route(E.n, [chan EXCEPT ![E.n][E.k] = Tail(@)]) /\ Same
RawEv == /\ Is("raw") /\ Rx(E.n, E.k, E.b) /\ raced' = (IF Other(E.n, E.k) = 0 THEN Race(E.n, E.k, E.b) ELSE [s \in Stores |-> 1..Len(st[s].buf)]) /\ chan' = Route(E.n, chan) /\ Same
\* ---- connections
Lose == /\ Is("lose")
        /\ LET o == Other(E.n, E.k)
               c1 == [chan EXCEPT ![E.n][E.k] = SubSeq(@, 1, Min(E.k2, Len(@)))]
           IN chan' = IF o = 0 THEN c1 ELSE [c1 EXCEPT ![o][E.k] = SubSeq(@, 1, Min(E.k1, Len(@)))]
        /\ UNCHANGED <<N, st, up, dn, conn, mapped, raced>>
ResetEv == /\ Is("reset")
           /\ LET R == [s \in Stores |-> OnBye(N[E.n][s], E.k)]
                  ms == {<<E.k, Enc(R[s].o[1], s)>> : s \in {s \in Stores : R[s].o # <<>>}}
              IN /\ E.tx # <<>> /\ E.tx[1] = <<E.k, <<98>>>>
                 /\ {E.tx[i] : i \in 2..Len(E.tx)} = ms /\ Len(E.tx) = Cardinality(ms) + 1
                 /\ Post(E.n, [s \in Stores |-> R[s].n])
           /\ chan' = Route(E.n, chan) /\ Same /\ UNCHANGED raced
Disc == /\ Is("disc")
        /\ IF \E s \in Stores : N[E.n][s].c[E.k].on THEN TxIs(E.k, <<<<98>>>>) ELSE E.tx = <<>>
        /\ Post(E.n, [s \in Stores |-> Drop(N[E.n][s], E.k)])
        /\ conn' = [conn EXCEPT ![E.n][E.k] = FALSE]
        /\ chan' = [Route(E.n, chan) EXCEPT ![E.n][E.k] = <<>>]
        /\ UNCHANGED <<st, up, dn, mapped, raced>>
Unmap == /\ Is("unmap")
         /\ LET K == {k \in ConnsOf(E.n) : N[E.n][E.s].c[k].on}
                ms == {<<k, <<98>> \o st[E.s].hash>> : k \in K}
            IN /\ {E.tx[i] : i \in DOMAIN E.tx} = ms /\ Len(E.tx) = Cardinality(ms)
               /\ Post(E.n, OneStore(E.n, E.s, [N[E.n][E.s] EXCEPT !.c = [k \in DOMAIN @ |-> CSOff]]))
         /\ mapped' = [mapped EXCEPT ![E.n][E.s] = FALSE]
         /\ chan' = Route(E.n, chan) /\ UNCHANGED <<st, up, dn, conn, raced>>
Map == Is("map") /\ E.tx = <<>> /\ Post(E.n, N[E.n]) /\ mapped' = [mapped EXCEPT ![E.n][E.s] = TRUE] /\ UNCHANGED <<st, up, dn, conn, raced, chan>>
Clean == Is("clean") /\ E.tx = <<>> /\ Post(E.n, N[E.n]) /\ Same /\ UNCHANGED <<chan, raced>>
\* Many updates of one object
Churn ==
    /\ Is("churn") /\ E.tx = <<>> /\ E.frames = E.cnt /\ E.same
    /\ LET ext(S) == Ext(E.s, S)
           o == Other(E.n, E.k)
           d == [i \in (E.o + 1)..(E.o + Len(E.b)) |-> E.b[i - E.o]]
           all == IF E.cnt > 5000 THEN 1..Len(st[E.s].buf) ELSE {}
           a == Sent(Touch(Write(N[E.n][E.s], d, ext), 0, {}, all), E.k, {1})
           b == Touch(OnUpdate(N[o][E.s], E.k, [id |-> N[o][E.s].c[E.k].in, d |-> d], {}, ext).n, E.k, {}, all)
       IN /\ chan[E.n][E.k] = <<>> /\ chan[o][E.k] = <<>>
          /\ N' = [N EXCEPT ![E.n][E.s] = a, ![o][E.s] = b]
          /\ TRUE = (\A n \in Nodes : \A s \in Stores : LET ch == SelectSeq(E.ch, LAMBDA x : x[1] = n /\ x[2] = s) IN ch # <<>> => N'[n][s].buf = ch[1][3])
          /\ TRUE = (N'[o][E.s].buf = N'[E.n][E.s].buf \/ N[o][E.s].buf # N[E.n][E.s].buf)
    /\ Same /\ UNCHANGED <<chan, raced>>
Equal(k, s) == LET x == N[up[k]][s].buf y == N[dn[k]][s].buf IN x = y \/ \A i \in ObjPos(s) : i \in raced[s] \/ x[i] = y[i]
Settled == Is("settled") /\ E.ok /\ UNCHANGED <<N, chan, st, up, dn, conn, mapped, raced>>
Established(k, s) == up[k] # 0 /\ dn[k] # 0 /\ LET u == N[up[k]][s].c[k] d == N[dn[k]][s].c[k]
                     IN u.on /\ d.on /\ u.out = d.in /\ d.out = u.in /\ u.out # 0 /\ d.out # 0
\* All is quiet: content is equal over established links, which include the given ones
End == /\ Is("end")
       /\ \A n \in Nodes : \A k \in ConnsOf(n) : dn[k] # 0 => chan[n][k] = <<>>
       /\ \A i \in DOMAIN E.est : \A s \in Stores : Established(E.est[i], s)
       /\ TRUE = (\A k \in Links : \A s \in Stores : Established(k, s) => Equal(k, s))
       /\ UNCHANGED <<N, chan, st, up, dn, conn, mapped, raced>>
Fin == Is("fin") /\ UNCHANGED <<N, chan, st, up, dn, conn, mapped, raced>>
Odd(n, k, b) == {<<n, s>> : s \in {s \in Stores : IsUpd(b) /\ s \in ByIn(n, k, U2(b, 2)) /\
    LET u == Entries(b, 4, KeySize(s), Len(st[s].buf))
    IN \E i \in DOMAIN u.e : ~\E j \in DOMAIN st[s].objs : u.e[i].key = st[s].objs[j][1] /\ u.e[i].len <= st[s].objs[j][2]}}
Next == \/ (RxEv \/ RawEv) /\ loose' = loose \cup Odd(E.n, E.k, E.b)
        \/ (New \/ NewLink \/ Conn \/ Src \/ W \/ Proc \/ Proc1 \/ Lose \/ ResetEv \/ Disc \/ Unmap \/ Map \/ Clean \/ Churn \/ Settled \/ End \/ Fin) /\ UNCHANGED loose
Spec == Init /\ [][Next]_vars
================================================================================
