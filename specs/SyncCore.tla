-------------------------------- MODULE SyncCore --------------------------------
(* Store synchronization: what one node does with one store on its connections.
   A node is [buf |-> content (sequence), c |-> [connection -> CS]]. Per connection:
     on    the store is synchronized over this connection
     src   this side asked for it (Hello), the other side provides the initial content
     out   reference given by the other side, for updates sent to it (0: not known yet)
     in    reference given to the other side, for updates sent to us
     must  positions that changed since the last exchange, and are to be sent
     may   positions that may be sent (the rest of the objects that changed)
   Messages: hello/welcome/update/bye/byeid/byehash.
   The journal with sequence numbers of the implementation is a representation of must/may. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CSOff == [on |-> FALSE, src |-> FALSE, out |-> 0, in |-> 0, must |-> {}, may |-> {}]
NewNode(buf, Conns) == [buf |-> buf, c |-> [k \in Conns |-> CSOff]]

\* Positions D changed, positions M of the objects these are part of (connection 0: none)
Touch(node, notc, D, M) ==
    [node EXCEPT !.c = [k \in DOMAIN @ |-> IF @[k].on /\ k # notc
        THEN [@[k] EXCEPT !.must = @ \cup D, !.may = @ \cup M] ELSE @[k]]]

Patch(buf, d) == [i \in 1..Len(buf) |-> IF i \in DOMAIN d THEN d[i] ELSE buf[i]]
\* d: function position -> value; Ext(S): the positions of the objects that contain S
Diff(buf, d) == {i \in DOMAIN d : d[i] # buf[i]}

Write(node, d, Ext(_)) ==
    LET D == Diff(node.buf, d)
    IN IF D = {} THEN node ELSE Touch([node EXCEPT !.buf = Patch(@, d)], 0, D, Ext(D))

\* Sending the updates X, if any
CanSend(node, c, X) == IF ~node.c[c].on THEN X = {} ELSE node.c[c].must \subseteq X /\ X \subseteq node.c[c].may
Sent(node, c, X) == IF X = {} THEN node ELSE [node EXCEPT !.c[c].must = {}, !.c[c].may = {}]
UpdMsg(node, c, X) == [t |-> "u", id |-> node.c[c].out, d |-> [i \in X |-> node.buf[i]]]
Upd(node, c, X) == IF X = {} THEN <<>> ELSE <<UpdMsg(node, c, X)>>

Drop(node, c) == [node EXCEPT !.c[c] = CSOff]
Hello(node, c) == <<[t |-> "h", id |-> node.c[c].in]>>
HelloAgain(node, c) == [n |-> [node EXCEPT !.c[c].out = 0], o |-> Hello(node, c)]
Ret(n, o) == [n |-> n, o |-> o]

SyncFrom(node, c, fresh) ==
    IF node.c[c].on THEN Ret(node, <<>>)
    ELSE LET n == [node EXCEPT !.c[c] = [CSOff EXCEPT !.on = TRUE, !.src = TRUE, !.in = fresh]] IN Ret(n, Hello(n, c))

\* fresh: a reference that is not used yet on this connection
OnHello(node, c, m, fresh) ==
    LET n == [node EXCEPT !.c[c] = [CSOff EXCEPT !.on = TRUE, !.out = m.id, !.in = fresh]]
    IN Ret(n, <<[t |-> "w", hid |-> m.id, id |-> fresh, buf |-> node.buf]>>)

\* The welcome replaces the content; what changed by it, has to be sent to others. All: all positions
OnWelcome(node, c, m, All, Ext(_)) ==
    IF ~node.c[c].on \/ node.c[c].in # m.hid \/ m.id = 0 \/ ~node.c[c].src
    THEN Ret(IF node.c[c].on /\ node.c[c].in = m.hid THEN Drop(node, c) ELSE node, <<[t |-> "bi", id |-> m.hid]>>)
    ELSE LET D == {i \in All : m.buf[i] # node.buf[i]}
             n == Touch([node EXCEPT !.buf = m.buf], c, D, Ext(D))
         IN Ret([n EXCEPT !.c[c].out = m.id, !.c[c].must = {}, !.c[c].may = {}], <<>>)

\* The local changes are sent first (X); and then the update is applied
OnUpdate(node, c, m, X, Ext(_)) ==
    IF m.id = 0 THEN Ret(node, <<>>)
    ELSE IF ~node.c[c].on \/ node.c[c].in # m.id THEN Ret(node, <<[t |-> "bi", id |-> m.id]>>)
    ELSE LET o == Upd(node, c, X)
             n0 == [node EXCEPT !.c[c].must = {}, !.c[c].may = {}]
             P == DOMAIN m.d
             n1 == Touch([n0 EXCEPT !.buf = Patch(@, m.d)], c, Diff(node.buf, m.d), Ext(P))
         IN Ret(n1, o)

OnBye(node, c) ==
    IF ~node.c[c].on THEN Ret(node, <<>>)
    ELSE IF node.c[c].src THEN HelloAgain(node, c) ELSE Ret(Drop(node, c), <<>>)
\* The other side does not know the reference it was given in an update
OnByeId(node, c, id) ==
    IF ~node.c[c].on \/ node.c[c].out # id \/ id = 0 THEN Ret(node, <<>>)
    ELSE IF node.c[c].src THEN HelloAgain(node, c) ELSE Ret(Drop(node, c), <<>>)
OnByeHash(node, c) ==
    IF ~node.c[c].on THEN Ret(node, <<>>)
    ELSE IF node.c[c].src /\ node.c[c].out # 0 THEN HelloAgain(node, c) ELSE Ret(Drop(node, c), <<>>)
Reset(node, c) ==
    LET r == OnBye(node, c) IN Ret(r.n, <<[t |-> "b"]>> \o r.o)
Disconnect(node, c) == Ret(Drop(node, c), IF node.c[c].on THEN <<[t |-> "b"]>> ELSE <<>>)

OnMsg(node, c, m, X, fresh, All, Ext(_)) ==
    CASE m.t = "h" -> OnHello(node, c, m, fresh)
      [] m.t = "w" -> OnWelcome(node, c, m, All, Ext)
      [] m.t = "u" -> OnUpdate(node, c, m, X, Ext)
      [] m.t = "b" -> OnBye(node, c)
      [] m.t = "bi" -> OnByeId(node, c, m.id)
      [] m.t = "bh" -> OnByeHash(node, c)
================================================================================
