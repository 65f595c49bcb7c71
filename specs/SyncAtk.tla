--------------------------------- MODULE SyncAtk ---------------------------------
(* Node NN sends anything, at any moment, to its neighbour. The others are not disturbed
   by that: these settle on equal content, and the links between them stay established. *)
EXTENDS SyncMC
CONSTANT MaxAtk
VARIABLE atk
Evil == NN
EvilLinks == ConnsOf(Evil)
Good == Nodes \ {Evil}
GoodLinks == Links \ EvilLinks
Ids == 0..2
Anything == [t : {"h", "bi"}, id : Ids] \cup [t : {"b", "bh"}]
    \cup [t : {"u"}, id : Ids, d : {<<>>, 1 :> 9}]
    \cup [t : {"w"}, hid : Ids, id : Ids, buf : {[i \in All |-> 9]}]
Attack(k) == LET n == Other(Evil, k) IN
    /\ k \in links /\ atk < MaxAtk /\ atk' = atk + 1 /\ Len(chan[n][k]) < 2
    /\ \E m \in Anything : chan' = [chan EXCEPT ![n][k] = Append(@, m)]
    /\ UNCHANGED <<N, val, nid, links, resets, raced, owner, conns, lastv, early>>
\* whatever is sent to the evil one gets lost
Lost(k) == chan[Evil][k] # <<>> /\ chan' = [chan EXCEPT ![Evil][k] = <<>>] /\ UNCHANGED <<N, val, nid, links, resets, raced, owner, conns, lastv, early, atk>>
AtkNext ==
    \/ \E n \in Good : \/ \E i \in All : Wr(n, i) /\ UNCHANGED atk
                       \/ \E k \in ConnsOf(n) : (Proc(n, k) \/ Deliver(n, k) \/ (k \in GoodLinks /\ ResetLink(n, k))) /\ UNCHANGED atk
    \/ \E k \in Links : Connect(k) /\ UNCHANGED atk
    \/ \E k \in EvilLinks : Attack(k) \/ Lost(k)
AtkSpec == Init /\ atk = 0 /\ [][AtkNext]_<<vars, atk>>
AtkBounded == \A n \in Nodes : \A k \in ConnsOf(n) : Len(chan[n][k]) <= MaxChan + 2
GoodQuiet == /\ \A n \in Good : \A k \in ConnsOf(n) : chan[n][k] = <<>>
             /\ \A n \in Good : \A k \in links \cap GoodLinks : (k \in ConnsOf(n)) => N[n].c[k].must = {}
GoodEstablished == GoodQuiet => \A k \in links \cap GoodLinks : LET u == N[UpOf[k]].c[k] d == N[DnOf[k]].c[k]
               IN u.on /\ d.on /\ ~u.src /\ d.src /\ u.out = d.in /\ d.out = u.in /\ u.out # 0 /\ d.out # 0
GoodConverged == GoodQuiet => \A k \in links \cap GoodLinks : \A i \in All \ raced : N[UpOf[k]].buf[i] = N[DnOf[k]].buf[i]
================================================================================
