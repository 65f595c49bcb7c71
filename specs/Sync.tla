---------------------------------- MODULE Sync ----------------------------------
(* Nodes in a tree of links, each with its copy of one store. Link i connects node
   Up[i] (provides the initial content) and Dn[i]. Channels keep the order. A link may
   lose everything in flight, after which one (or both) ends are reset. *)
EXTENDS SyncCore
CONSTANTS NN, UpOf, DnOf, NObj, MaxWrite, MaxReset, MaxConn, MaxChan
ASSUME Len(UpOf) = Len(DnOf)
VARIABLES N, chan, val, nid, links, resets, raced, owner, conns, lastv, early
vars == <<N, chan, val, nid, links, resets, raced, owner, conns, lastv, early>>
Nodes == 1..NN
Links == 1..Len(UpOf)
All == 1..NObj
Ext(S) == S
Other(n, k) == IF UpOf[k] = n THEN DnOf[k] ELSE UpOf[k]
ConnsOf(n) == {k \in Links : UpOf[k] = n \/ DnOf[k] = n}
Init == /\ N = [n \in Nodes |-> NewNode([i \in All |-> 0], ConnsOf(n))]
        /\ chan = [n \in Nodes |-> [k \in Links |-> <<>>]]       \* messages towards n over k
        /\ val = 0 /\ links = {} /\ resets = 0 /\ raced = {} /\ owner = [i \in All |-> {}] /\ conns = 0 /\ lastv = [i \in All |-> 0] /\ early = FALSE
        /\ nid = [n \in Nodes |-> [k \in Links |-> 1]]

Send(ch, n, k, out) == [ch EXCEPT ![Other(n, k)][k] = @ \o out]
Put(n, k, r) == N' = [N EXCEPT ![n] = r.n] /\ chan' = Send(chan, n, k, r.o)
Bump(n, k) == nid' = [nid EXCEPT ![n][k] = @ + 1]

Established == \A k \in links : LET u == N[UpOf[k]].c[k] d == N[DnOf[k]].c[k]
               IN u.on /\ d.on /\ ~u.src /\ d.src /\ u.out = d.in /\ d.out = u.in /\ u.out # 0 /\ d.out # 0
Wr(n, i) == /\ val < MaxWrite
            /\ val' = val + 1 /\ N' = [N EXCEPT ![n] = Write(@, i :> (val + 1), Ext)]
            /\ owner' = [owner EXCEPT ![i] = @ \cup {n}]
            /\ lastv' = [lastv EXCEPT ![i] = val + 1]
            /\ early' = (early \/ ~(Established /\ links = Links) \/ resets # 0)
            /\ UNCHANGED <<chan, nid, links, resets, raced, conns>>
Proc(n, k) == /\ k \in links
              /\ \E X \in {N[n].c[k].must, N[n].c[k].may} :
                    /\ X # {} /\ CanSend(N[n], k, X)
                    /\ N' = [N EXCEPT ![n] = Sent(@, k, X)]
                    /\ chan' = Send(chan, n, k, Upd(N[n], k, X))
              /\ Len(chan[Other(n, k)][k]) < MaxChan
              /\ UNCHANGED <<val, nid, links, resets, raced, owner, conns, lastv, early>>
\* Objects of which changes pass each other on the link (the documented race)
RECURSIVE InFlight(_)
InFlight(q) == IF q = <<>> THEN {} ELSE (IF Head(q).t = "u" THEN DOMAIN Head(q).d ELSE {}) \cup InFlight(Tail(q))
Crossing(n, k, m) == IF m.t = "u" THEN DOMAIN m.d \cap (InFlight(chan[Other(n, k)][k]) \cup N[n].c[k].may) ELSE {}
Deliver(n, k) ==
    /\ chan[n][k] # <<>>
    /\ LET m == Head(chan[n][k])
           Xs == IF m.t = "u" THEN {N[n].c[k].must, N[n].c[k].may} ELSE {{}}
       IN /\ raced' = raced \cup Crossing(n, k, m)
          /\ \E X \in Xs :
             LET r == OnMsg(N[n], k, m, X, nid[n][k], All, Ext)
             IN /\ N' = [N EXCEPT ![n] = r.n]
                /\ chan' = Send([chan EXCEPT ![n][k] = Tail(@)], n, k, r.o)
          /\ IF m.t = "h" THEN Bump(n, k) ELSE UNCHANGED nid
    /\ UNCHANGED <<val, links, resets, owner, conns, lastv, early>>
\* Both ends of the link are connected; the lower node synchronizes from the upper one
Connect(k) == LET u == UpOf[k] d == DnOf[k] r == SyncFrom(N[d], k, nid[d][k]) IN
    /\ k \notin links /\ links' = links \cup {k} /\ conns < MaxConn /\ conns' = conns + 1
    /\ N' = [N EXCEPT ![d] = r.n]
    /\ chan' = [chan EXCEPT ![u][k] = r.o, ![d][k] = <<>>]
    /\ Bump(d, k)
    /\ early' = (early \/ val > 0)
    /\ UNCHANGED <<val, resets, raced, owner, lastv>>
\* The connections at both ends are destroyed
Disconnect2(k) == /\ k \in links /\ links' = links \ {k}
    /\ N' = [N EXCEPT ![UpOf[k]] = Drop(@, k), ![DnOf[k]] = Drop(@, k)]
    /\ chan' = [chan EXCEPT ![UpOf[k]][k] = <<>>, ![DnOf[k]][k] = <<>>]
    /\ resets < MaxReset /\ resets' = resets + 1
    \* a connection is a new object, with new references
    /\ nid' = [nid EXCEPT ![UpOf[k]][k] = 1, ![DnOf[k]][k] = 1]
    /\ early' = (early \/ val > 0)
    /\ UNCHANGED <<val, raced, owner, conns, lastv>>
\* The link looses a suffix of what is in flight in both directions, and is reset by one end, or
\* by both (the second reset is another step, possibly later)
Prefixes(q) == {SubSeq(q, 1, i) : i \in 0..Len(q)}
ResetLink(n, k) == /\ k \in links /\ n \in {UpOf[k], DnOf[k]} /\ resets < MaxReset /\ resets' = resets + 1
    /\ \E q \in Prefixes(chan[Other(n, k)][k]), p \in {<<>>, chan[n][k]} :
        LET r == Reset(N[n], k)
        IN N' = [N EXCEPT ![n] = r.n] /\ chan' = [chan EXCEPT ![Other(n, k)][k] = q \o r.o, ![n][k] = p]
    /\ early' = (early \/ val > 0)
    /\ UNCHANGED <<val, nid, links, raced, owner, conns, lastv>>
Next == \/ \E n \in Nodes : \/ \E i \in All : Wr(n, i)
                            \/ \E k \in ConnsOf(n) : Proc(n, k) \/ Deliver(n, k) \/ ResetLink(n, k)
        \/ \E k \in Links : Connect(k) \/ Disconnect2(k)
Fair == \A n \in Nodes : \A k \in ConnsOf(n) : WF_vars(Deliver(n, k)) /\ WF_vars(Proc(n, k))
Spec == Init /\ [][Next]_vars
LiveSpec == Spec /\ Fair

Bounded == \A n \in Nodes : \A k \in ConnsOf(n) : Len(chan[n][k]) <= MaxChan + 3
Quiet == /\ \A n \in Nodes : \A k \in ConnsOf(n) : chan[n][k] = <<>>
         /\ \A n \in Nodes : \A k \in links : (k \in ConnsOf(n)) => N[n].c[k].must = {}
\* Two nodes are connected by links
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup {n \in Nodes : \E k \in links : n \in {UpOf[k], DnOf[k]} /\ Other(n, k) \in S}
            IN IF T = S THEN S ELSE Reach(T)
\* When everything has been processed and delivered, the links are established and the content is equal
QuietEstablished == Quiet => Established
Converged == Quiet => \A a \in Nodes : \A b \in Reach({a}) : \A i \in All \ raced : N[a].buf[i] = N[b].buf[i]
\* Values come from somewhere
Genuine == \A n \in Nodes : \A i \in All : N[n].buf[i] \in 0..val
\* The last value of a sole writer wins, unless a full copy may have overwritten it
LastWins == (Quiet /\ ~early) => \A i \in All \ raced : Cardinality(owner[i]) = 1 =>
    \A w \in owner[i] : \A n \in Reach({w}) : N[n].buf[i] = lastv[i]
\* No endless exchange of messages
EventuallyQuiet == <>[]Quiet
================================================================================
