--------------------------------- MODULE SyncSim ---------------------------------
(* Behaviours of Sync, to be replayed by the implementation *)
EXTENDS SyncMC, Json
CONSTANT SimLen
VARIABLE hist
H(x) == hist' = Append(hist, x)
SimInit == Init /\ hist = <<>>
SimNext ==
    \/ \E n \in Nodes : \/ \E i \in All : Wr(n, i) /\ H(<<"w", n, i, val + 1>>)
                        \/ \E k \in ConnsOf(n) : \/ Proc(n, k) /\ H(<<"proc1", n, k, 1>>)
                                                 \/ Deliver(n, k) /\ H(<<"dl", n, k>>)
                                                 \/ ResetLink(n, k) /\ H(<<"reset", n, k, Len(chan'[Other(n, k)][k]) - Len(Reset(N[n], k).o), Len(chan'[n][k])>>)
    \/ \E k \in Links : \/ Connect(k) /\ H(<<"connect", k>>)
                        \/ Disconnect2(k) /\ H(<<"disconnect", k>>)
SimSpec == SimInit /\ [][SimNext]_<<vars, hist>>
Out == IF Len(hist) = SimLen \/ (Len(hist) > 8 /\ ~ENABLED SimNext) THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
================================================================================
