----------------------------- MODULE ChannelBlk -----------------------------
(* encode() writes in a loop to a channel that holds Cap bytes; when it is full, it waits. recv(-1) reads, or
   waits. Timeout: what -1 us becomes when it is passed to poll(): "inf", or "zero" (the original code). *)
EXTENDS Integers
CONSTANTS Cap, N, Timeout
VARIABLES left, inpipe, recvd, w, r
vars == <<left, inpipe, recvd, w, r>>
Init == left = N /\ inpipe = 0 /\ recvd = 0 /\ w = "write" /\ r = "read"
Write ==
	/\ w = "write"
	/\ IF left = 0 THEN w' = "done" /\ UNCHANGED <<left, inpipe>>
	   ELSE IF inpipe = Cap THEN w' = "poll" /\ UNCHANGED <<left, inpipe>>
	   ELSE \E k \in 1..N : k <= left /\ k <= Cap - inpipe /\ left' = left - k /\ inpipe' = inpipe + k /\ w' = w
	/\ UNCHANGED <<recvd, r>>
PollW ==
	/\ w = "poll"
	/\ IF inpipe < Cap THEN w' = "write"
	   ELSE Timeout = "zero" /\ w' = "error"
	/\ UNCHANGED <<left, inpipe, recvd, r>>
Read ==
	/\ r = "read"
	/\ IF inpipe > 0 THEN \E k \in 1..inpipe : inpipe' = inpipe - k /\ recvd' = recvd + k /\ r' = r
	   ELSE r' = "poll" /\ UNCHANGED <<inpipe, recvd>>
	/\ UNCHANGED <<left, w>>
PollR ==
	/\ r = "poll"
	/\ IF inpipe > 0 THEN r' = "read"
	   ELSE Timeout = "zero" /\ r' = "error"
	/\ UNCHANGED <<left, inpipe, recvd, w>>
Next == Write \/ PollW \/ Read \/ PollR
Spec == Init /\ [][Next]_vars /\ WF_vars(Write) /\ WF_vars(PollW) /\ WF_vars(Read) /\ WF_vars(PollR)
NoError == w # "error" /\ r # "error"
Conserved == left + inpipe + recvd = N
AllArrives == <>(recvd = N /\ w = "done")
=============================================================================
