---------------------------- MODULE ChannelTrace ----------------------------
EXTENDS Channel, TraceLib
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Match == out'.err = E.err /\ out'.rx = E.rx
New ==
	/\ Is("new")
	/\ Reset(E.kind, E.buf)
	/\ E.open = <<E.kind # "fifo", TRUE>> \* an Outbound NamedPipeLayer opens at the first encode()
TEnc ==
	/\ Is("enc")
	/\ Enc(E.s, E.n, E.last, E.flt, E.acc)
	/\ out'.rx = E.rx
	/\ \/ out'.err = E.err
	   \/ kind = "zmq" /\ ~alive[Other(E.s)] /\ E.err = "0" \* it is still disconnecting
TRcv ==
	/\ Is("rcv")
	/\ E.last = E.err
	/\ \E bad \in {E.flt, E.flt \/ (kind = "sock" /\ E.err = "err" /\ open[E.s] /\ ~Connected(E.s) /\ q[From(E.s)] = <<>>)} :
		Rcv(E.s, E.one, IF Msg THEN Len(E.rx[E.s]) ELSE IF E.rx[E.s] = <<>> THEN 0 ELSE Size(E.rx[E.s][1]), bad)
	/\ Match
TBig == \* all of it arrives
	LET d == E.s
	    o == IF kind = "stdio" THEN 1 ELSE Other(d)
	    all == Push(q[d], <<sent[d], E.n>>) IN
	/\ Is("big")
	/\ E.err = "0"
	/\ E.rx = Rx(o, <<all>>)
	/\ sent' = [sent EXCEPT ![d] = @ + E.n]
	/\ open' = IF Fifo THEN [open EXCEPT ![d] = TRUE] ELSE open
	/\ q' = [q EXCEPT ![d] = <<>>]
	/\ out' = [err |-> "0", rx |-> E.rx]
	/\ UNCHANGED <<kind, buf, alive, store, part, ackq, infl>>
TWait == \* E.s gets something, without looking at it all the time
	LET d == Other(E.s)
	    all == IF kind = "zmq" THEN Append(q[d], Push(<<>>, <<sent[d], E.n>>)) ELSE Push(q[d], <<sent[d], E.n>>) IN
	/\ Is("wait")
	/\ E.err = "0"
	/\ E.err2 = "0"
	/\ E.rx[d] = <<>>
	/\ IF kind = "zmq"
	   THEN /\ Len(E.rx[E.s]) \in 1..Len(all)
		/\ E.rx[E.s] = SubSeq(all, 1, Len(E.rx[E.s]))
		/\ q' = [q EXCEPT ![d] = SubSeq(all, Len(E.rx[E.s]) + 1, Len(all))]
	   ELSE /\ Len(E.rx[E.s]) = 1
		/\ Size(E.rx[E.s][1]) \in 1..Mn(buf, Size(all))
		/\ E.rx[E.s][1] = Take(all, Size(E.rx[E.s][1]))
		/\ q' = [q EXCEPT ![d] = Skip(all, Size(E.rx[E.s][1]))]
	/\ sent' = [sent EXCEPT ![d] = @ + E.n]
	/\ open' = IF Fifo THEN [open EXCEPT ![d] = TRUE] ELSE open
	/\ out' = [err |-> "0", rx |-> E.rx]
	/\ UNCHANGED <<kind, buf, alive, store, part, ackq, infl>>
TDrop == Is("drop") /\ DropSide(E.s)
TMake == Is("make") /\ MakeSide(E.s)
TReopen == Is("reopen") /\ Reopen(E.s)
TReset ==
	/\ Is("reset")
	/\ IF kind = "xsim" /\ E.s = 1 THEN ResetSide
	   ELSE IF kind = "lo" THEN part' = [part EXCEPT ![E.s] = <<>>] /\ out' = [err |-> "0", rx |-> None] /\ UNCHANGED <<kind, buf, alive, open, q, sent, store, ackq, infl>>
	   ELSE UNCHANGED vars
TAck == Is("ack") /\ Ack(E.n)
RECURSIVE Sum(_)
Sum(x) == IF x = <<>> THEN 0 ELSE Head(x) + Sum(Tail(x))
TReq == \* a request is one message; the reply is what was encoded, or an error when there is none
	/\ Is("req")
	/\ kind = "req"
	/\ E.rx = Rx(1, <<Push(<<>>, <<sent[2], Sum(E.parts)>>)>>)
	/\ IF E.rep = <<>>
	   THEN E.err = "err" /\ E.q
	   ELSE E.err = "0" /\ E.reply = Push(<<>>, <<sent[1], Sum(E.rep)>>) /\ E.frames = E.rep
	/\ sent' = <<sent[1] + Sum(E.rep), sent[2] + Sum(E.parts)>>
	/\ out' = [err |-> "0", rx |-> E.rx]
	/\ UNCHANGED <<kind, buf, alive, open, q, store, part, ackq, infl>>
Init ==
	/\ l = 1
	/\ kind = "" /\ buf = 1 /\ alive = <<FALSE, FALSE>> /\ open = <<FALSE, FALSE>>
	/\ q = <<<<>>, <<>>>> /\ sent = <<0, 0>> /\ store = <<<<>>, <<>>>> /\ part = <<<<>>, <<>>>>
	/\ ackq = 0 /\ infl = 0 /\ out = [err |-> "0", rx |-> None]
Next == New \/ TEnc \/ TRcv \/ TBig \/ TWait \/ TDrop \/ TMake \/ TReopen \/ TReset \/ TAck \/ TReq
Spec == Init /\ [][Next]_<<vars, l>>
=============================================================================
