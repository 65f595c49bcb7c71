----------------------------- MODULE ChannelMC -----------------------------
(* All histories of a few actions of two end points. got: what each side received so far. *)
EXTENDS Channel
CONSTANTS MaxSent, MaxSteps, Kinds
VARIABLES got, losses, steps
mcvars == <<vars, got, losses, steps>>
Init ==
	/\ kind \in Kinds
	/\ buf = 2
	/\ alive = <<TRUE, TRUE>>
	/\ open = [s \in Sides |-> ~Fifo]
	/\ q = <<<<>>, <<>>>> /\ sent = <<0, 0>> /\ store = <<<<>>, <<>>>> /\ part = <<<<>>, <<>>>>
	/\ ackq = 0 /\ infl = 0
	/\ out = [err |-> "0", rx |-> None]
	/\ got = <<<<>>, <<>>>>
	/\ losses = FALSE
	/\ steps = 0
RECURSIVE Cat(_)
Cat(c) == IF c = <<>> THEN <<>> ELSE Head(c) \o Cat(Tail(c))
Data(r) == SelectSeq(r, LAMBDA x : x[1] # K)
Step ==
	\/ \E s \in Sides, n \in 0..2, last \in BOOLEAN :
		/\ sent[s] + n <= MaxSent
		/\ last \/ Msg
		/\ kind = "fifo" => s = 1
		/\ Enc(s, n, last, FALSE, 0)
	\/ \E s \in Sides, n \in 1..2, a \in 0..1 : sent[s] + n <= MaxSent /\ kind \notin {"xsim", "stdio"} /\ (kind = "fifo" => s = 1) /\ Enc(s, n, TRUE, TRUE, a)
	\/ \E s \in Sides, one \in BOOLEAN, k \in 0..5, bad \in BOOLEAN : (one => kind = "zmq") /\ (kind = "fifo" => s = 2) /\ Rcv(s, one, k, bad)
	\/ \E s \in Sides : DropSide(s) \/ MakeSide(s) \/ Reopen(s)
	\/ ResetSide
	\/ ackq = 0 /\ \E n \in 1..2 : Ack(n)
Next ==
	/\ steps < MaxSteps
	/\ steps' = steps + 1
	/\ Step
	\* a file that is opened again is read again
	/\ got' = [s \in Sides |-> IF kind = "file" /\ alive'[s] /\ ~alive[s] THEN <<>> ELSE got[s] \o Data(Cat(out'.rx[s]))]
	/\ losses' = (losses \/ out'.err \notin {"0", "again"} \/ (kind \in {"zmq", "lo"} /\ out'.err # "0") \/ alive' # alive)
Spec == Init /\ [][Next]_mcvars
---------------------------------------------------------------------------
RECURSIVE Flat(_, _)
Flat(r, acc) == \* the positions
	IF r = <<>> THEN acc ELSE Flat(Tail(r), acc \o [i \in 1..r[1][2] |-> r[1][1] + i - 1])
Ordered == \A s \in Sides : LET p == Flat(got[s], <<>>) IN \A i \in 1..Len(p) : (i > 1 => p[i - 1] < p[i]) /\ p[i] < sent[From(s)]
\* Without errors and disappearing peers, all that was sent is received or under way.
InFlight(d) == Flat(Data(IF kind = "zmq" THEN Cat(q[d]) ELSE q[d]), <<>>)
Complete == ~losses => \A s \in IF kind = "stdio" THEN {1} ELSE Sides :
	Flat(got[s], <<>>) \o InFlight(From(s)) \o (IF Msg THEN Flat(part[From(s)], <<>>) ELSE <<>>) = [i \in 1..sent[From(s)] |-> i - 1]
\* A dead FIFO has no old data.
NoStale == Fifo => \A d \in Sides : ~alive[Other(d)] /\ ~open[d] => q[d] = <<>>
Status == \A s \in Sides : out.rx[s] # <<>> => out.err \in {"0"}
=============================================================================
