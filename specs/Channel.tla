------------------------------ MODULE Channel ------------------------------
(* OS-level channels: the layers at the bottom of a protocol stack that hand the bytes to a file
   descriptor, FIFO, pair of FIFOs, file, socket, loop back or ZeroMQ socket, and the layer at the
   other end. Bytes are numbered per direction; a byte stream is a sequence of runs <<first, n>>.

   kind: "fd"    two FileLayers on two anonymous pipes
         "sock"  two FileLayers on a socket pair
         "file"  two FileLayers on two files, which keep all that was written
         "fifo"  NamedPipeLayer Outbound (side 1) to Inbound (side 2)
         "dpipe" two DoublePipeLayers
         "xsim"  XsimLayer (1) and its peer (2), with keep-alive bytes and a third pipe
         "stdio" FileLayer (1) to a process that echoes with a StdioLayer
         "lo"    Loopback
         "zmq"   two SyncZmqLayers
   An action sets out: the error class ("0", "again", "err") and the chunks that were decoded. *)
EXTENDS Integers, Sequences
VARIABLES kind, buf, alive, open, q, sent, store, part, ackq, infl, out
vars == <<kind, buf, alive, open, q, sent, store, part, ackq, infl, out>>
K == -2 \* keep alive
Sides == {1, 2}
Other(s) == 3 - s
From(s) == IF kind = "stdio" THEN 1 ELSE Other(s) \* the direction that s reads
Msg == kind \in {"lo", "zmq"}
Fifo == kind \in {"fifo", "dpipe", "xsim"}
Fd == kind \in {"fd", "sock"}
ReqBuf == 128
Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
---------------------------------------------------------------------------
Push(r, x) == \* adds run x to r
	IF x[2] = 0 THEN r
	ELSE IF r # <<>> /\ x[1] >= 0 /\ r[Len(r)][1] >= 0 /\ r[Len(r)][1] + r[Len(r)][2] = x[1]
	THEN [r EXCEPT ![Len(r)][2] = @ + x[2]]
	ELSE Append(r, x)
RECURSIVE Size(_), Take(_, _), Skip(_, _)
Size(r) == IF r = <<>> THEN 0 ELSE r[1][2] + Size(Tail(r))
Take(r, n) ==
	IF n = 0 THEN <<>>
	ELSE IF r[1][2] >= n THEN <<<<r[1][1], n>>>>
	ELSE <<r[1]>> \o Take(Tail(r), n - r[1][2])
Skip(r, n) ==
	IF n = 0 THEN r
	ELSE IF r[1][2] > n THEN <<<<r[1][1] + n, r[1][2] - n>>>> \o Tail(r)
	ELSE Skip(Tail(r), n - r[1][2])
---------------------------------------------------------------------------
None == <<<<>>, <<>>>>
Reset(k, b) ==
	/\ kind' = k
	/\ buf' = b
	/\ alive' = <<TRUE, TRUE>>
	/\ open' = [s \in Sides |-> k \notin {"fifo", "dpipe", "xsim"}]
	/\ q' = <<<<>>, <<>>>>      \* in flight; messages: a sequence of streams
	/\ sent' = <<0, 0>>
	/\ store' = <<<<>>, <<>>>>  \* file: all there is
	/\ part' = <<<<>>, <<>>>>   \* unfinished message
	/\ ackq' = 0
	/\ infl' = 0
	/\ out' = [err |-> "0", rx |-> None]
\* Whether data from s can get away, given the state of the end points al, op.
CanOpen(s) == alive[Other(s)]
Connected(s) ==
	CASE Fd -> open[s] /\ alive[Other(s)] /\ open[Other(s)]
	[] Fifo -> CanOpen(s)
	[] kind = "file" -> open[s]
	[] kind = "zmq" -> alive[Other(s)]
	[] OTHER -> TRUE
\* The result of writing x by s, with acc bytes accepted by the OS when a fault is injected.
Put(qq, s, x) == [qq EXCEPT ![s] = Push(@, x)]
\* A FIFO that nobody has open looses its content.
Freed(al, op, qq) ==
	IF ~Fifo THEN qq
	ELSE [d \in Sides |-> IF ~al[Other(d)] /\ ~(al[d] /\ op[d]) THEN <<>> ELSE qq[d]]
Rx(s, c) == [None EXCEPT ![s] = c]
---------------------------------------------------------------------------
\* encode(n bytes) by s. flt: a write error is injected after acc bytes.
EncStream(s, n, flt, acc) ==
	\* A FIFO that was open, but lost its reader, fails at the first write; it is reopened for the next.
	LET ok == Connected(s) /\ (Fd \/ kind = "file" \/ Fifo => (open[s] \/ Fifo))
	    lost == Fifo /\ ~ok
	    e == IF flt THEN "err" ELSE IF ok \/ (n = 0 /\ open[s]) THEN "0" ELSE "err"
	    m == IF flt THEN acc ELSE IF ok THEN n ELSE 0
	    op == [open EXCEPT ![s] = IF Fifo THEN (ok /\ ~flt) \/ (n = 0 /\ open[s]) ELSE e = "0" /\ @]
	IN
	/\ flt => acc < n /\ (ok \/ acc = 0)
	/\ open' = op
	/\ sent' = [sent EXCEPT ![s] = @ + n]
	/\ store' = IF kind = "file" THEN Put(store, s, <<sent[s], m>>) ELSE store
	/\ q' = Freed(alive, op, Put(q, s, <<sent[s], m>>))
	/\ infl' = IF kind = "xsim" /\ s = 1 THEN IF e # "0" THEN 0 ELSE infl + n ELSE infl
	/\ out' = [err |-> e, rx |-> None]
	/\ UNCHANGED <<kind, buf, alive, part, ackq>>
EncMsg(s, n, last) ==
	LET m == Push(part[s], <<sent[s], n>>)
	    ok == Connected(s)
	    done == ok /\ last
	IN
	/\ sent' = [sent EXCEPT ![s] = @ + n]
	/\ part' = [part EXCEPT ![s] = IF done \/ ~ok THEN <<>> ELSE m]
	/\ q' = IF done /\ kind = "zmq" THEN [q EXCEPT ![s] = Append(@, m)] ELSE q
	/\ out' = [err |-> IF ok THEN "0" ELSE "again", rx |-> IF done /\ kind = "lo" THEN Rx(Other(s), <<m>>) ELSE None]
	/\ UNCHANGED <<kind, buf, alive, open, store, ackq, infl>>
Enc(s, n, last, flt, acc) ==
	/\ alive[s]
	/\ kind = "stdio" => s = 1
	/\ IF Msg THEN ~flt /\ EncMsg(s, n, last) ELSE EncStream(s, n, flt, acc)
---------------------------------------------------------------------------
\* recv() by s, that gets k bytes (streams) or messages. lost: what was in flight is lost with the peer.
\* xsim: the data on the third pipe is processed first.
KeepAlive(s, in0, qq, op) ==
	IF in0 <= 1
	THEN IF alive[Other(s)] THEN [i |-> in0 + 1, q |-> Put(qq, s, <<K, 1>>), op |-> [op EXCEPT ![s] = TRUE], e |-> "0"]
	     ELSE [i |-> 0, q |-> qq, op |-> [op EXCEPT ![s] = FALSE], e |-> "err"]
	ELSE [i |-> in0, q |-> qq, op |-> op, e |-> "0"]
RcvStream(s, k, bad) ==
	LET d == From(s)
	    usable == Fifo \/ open[s]
	    n == Mn(ackq, ReqBuf)
	    acked == kind = "xsim" /\ s = 1 /\ n > 0
	    ka == IF acked THEN KeepAlive(s, Mx(0, infl - n), q, open) ELSE [i |-> infl, q |-> q, op |-> open, e |-> "0"]
	IN
	/\ IF ~usable \/ bad THEN k = 0 ELSE IF Size(q[d]) = 0 THEN k = 0 ELSE k \in 1..Mn(buf, Size(q[d]))
	/\ bad => usable /\ ~Fifo
	/\ ackq' = IF acked THEN ackq - n ELSE ackq
	/\ infl' = ka.i
	/\ open' = IF bad THEN [open EXCEPT ![s] = FALSE] ELSE ka.op
	/\ q' = IF k = 0 THEN Freed(alive, ka.op, ka.q) ELSE [Freed(alive, ka.op, ka.q) EXCEPT ![d] = Skip(@, k)]
	/\ out' = [err |-> IF ~usable \/ bad THEN "err" ELSE IF k = 0 THEN "again" ELSE "0",
		   rx |-> IF k = 0 THEN None ELSE Rx(s, <<Take(q[d], k)>>)]
	/\ UNCHANGED <<kind, buf, alive, sent, store, part>>
RcvMsg(s, one, k) ==
	LET d == From(s)
	    \* what the lost peer sent may be lost, from some message on
	    all == IF one THEN Mn(1, Len(q[d])) ELSE Len(q[d]) IN
	/\ IF alive[Other(s)] THEN k = all ELSE k \in 0..all
	/\ q' = [q EXCEPT ![d] = IF alive[Other(s)] \/ (one /\ k = 1) THEN SubSeq(@, k + 1, Len(@)) ELSE <<>>]
	/\ out' = [err |-> IF k = 0 THEN "again" ELSE "0", rx |-> Rx(s, SubSeq(q[d], 1, k))]
	/\ UNCHANGED <<kind, buf, alive, open, sent, store, part, ackq, infl>>
Rcv(s, one, k, bad) ==
	/\ alive[s]
	/\ kind # "lo"
	/\ kind = "stdio" => s = 1
	/\ IF Msg THEN ~bad /\ RcvMsg(s, one, k) ELSE RcvStream(s, k, bad)
---------------------------------------------------------------------------
\* The layer of s is destroyed; what was sent to it is gone, unless the OS keeps it.
DropSide(s) ==
	LET al == [alive EXCEPT ![s] = FALSE]
	    op == [open EXCEPT ![s] = FALSE] IN
	/\ alive[s]
	/\ kind \notin {"lo", "stdio"}
	/\ kind = "xsim" => s = 2
	/\ alive' = al
	/\ open' = op
	/\ q' = CASE kind = "file" -> q
		[] Fifo -> Freed(al, op, q)
		[] OTHER -> [q EXCEPT ![Other(s)] = <<>>]
	/\ part' = [part EXCEPT ![s] = <<>>]
	/\ out' = [err |-> "0", rx |-> None]
	/\ UNCHANGED <<kind, buf, sent, store, ackq, infl>>
\* It is created again.
MakeSide(s) ==
	/\ ~alive[s]
	/\ kind \in {"file", "fifo", "dpipe", "xsim", "zmq"}
	/\ alive' = [alive EXCEPT ![s] = TRUE]
	/\ open' = [open EXCEPT ![s] = ~Fifo]
	\* a file is read from its start
	/\ q' = CASE kind = "file" -> [q EXCEPT ![Other(s)] = store[Other(s)]]
		[] kind = "zmq" -> [q EXCEPT ![Other(s)] = <<>>]
		[] OTHER -> q
	/\ out' = [err |-> "0", rx |-> None]
	/\ UNCHANGED <<kind, buf, sent, store, part, ackq, infl>>
Reopen(s) ==
	LET ok == alive[Other(s)]
	    op == [open EXCEPT ![s] = ok]
	    ka == KeepAlive(s, 0, q, op) IN
	/\ alive[s]
	/\ Fifo
	/\ kind = "fifo" => s = 1
	/\ IF kind = "xsim" /\ s = 1
	   THEN infl' = ka.i /\ open' = ka.op /\ q' = Freed(alive, ka.op, ka.q)
	   ELSE infl' = infl /\ open' = op /\ q' = Freed(alive, op, q)
	/\ out' = [err |-> "0", rx |-> None]
	/\ UNCHANGED <<kind, buf, alive, sent, store, part, ackq>>
\* xsim: reset() of the layer
ResetSide ==
	LET ka == KeepAlive(1, 0, q, open) IN
	/\ kind = "xsim"
	/\ infl' = ka.i /\ open' = ka.op /\ q' = Freed(alive, ka.op, ka.q)
	/\ out' = [err |-> "0", rx |-> None]
	/\ UNCHANGED <<kind, buf, alive, sent, store, part, ackq>>
\* xsim: the peer forwards n bytes to the third pipe.
Ack(n) ==
	/\ kind = "xsim"
	/\ alive[2]
	/\ ackq' = ackq + n
	/\ out' = [err |-> "0", rx |-> None]
	/\ UNCHANGED <<kind, buf, alive, open, q, sent, store, part, infl>>
=============================================================================
