------------------------------- MODULE FifoCheck --------------------------------
(* All histories of a message FIFO: messages never overlap, never leave the ring, and what is reported
   as free can be used. *)
EXTENDS Fifo
CONSTANTS Size, MaxMsgs, Lens
VARIABLE f
vars == <<f>>
Init == f = MEmpty
AppendA == \E n \in Lens : ~MTooBig(Size, f, n) /\ MFits(Size, f, n) /\ f' = MAppend(Size, f, n)
DoneA == ~MFull(MaxMsgs, f) /\ f' = MDone(f)
ResetA == f' = MReset(f)
PopA == f.ms # <<>> /\ f' = MPop(f)
ClearA == f' = MClear(f)
Next == AppendA \/ DoneA \/ ResetA \/ PopA \/ ClearA
Spec == Init /\ [][Next]_vars
Blocks == {<<i, f.ms[i].a, f.ms[i].n>> : i \in 1..Len(f.ms)} \cup {<<0, f.wp, f.p>>}
Inside == \A b \in Blocks : b[2] >= 0 /\ b[2] + b[3] <= Size
Disjoint == \A b, c \in Blocks : b[1] # c[1] /\ b[3] > 0 /\ c[3] > 0 => b[2] + b[3] <= c[2] \/ c[2] + c[3] <= b[2]
RoomIsUsable == \A n \in 1..MRoom(Size, f) : LET g == MAppend(Size, f, n) IN g.wp + g.p <= Size /\ g.p = f.p + n
               /\ \A i \in 1..Len(f.ms) : f.ms[i].n > 0 => g.wp + g.p <= f.ms[i].a \/ f.ms[i].a + f.ms[i].n <= g.wp
\* an empty one can always take a message of one less than the capacity
EmptyIsEmpty == f.ms = <<>> => MRoom(Size, f) = Size - 1 - f.p
NonNegative == MRoom(Size, f) >= 0
\* at least what is free at either side of the content, whichever is more
Inv == Inside /\ Disjoint /\ RoomIsUsable /\ EmptyIsEmpty /\ NonNegative
=================================================================================
