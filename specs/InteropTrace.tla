------------------------------ MODULE InteropTrace ------------------------------
(* A client that waits for every response, the debug ARQ of the Python client, a lossy and
   duplicating channel and the C++ target: what the application at both ends observes. *)
EXTENDS TraceLib
VARIABLES l, mtu, st, cur, exd, ans
vars == <<l, mtu, st, cur, exd, ans>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
Init == l = 1 /\ mtu = 0 /\ st = "none" /\ cur = <<>> /\ exd = FALSE /\ ans = <<>>
New == Is("new") /\ mtu' = E.mtu /\ st' = "idle" /\ cur' = <<>> /\ exd' = FALSE /\ ans' = <<>>
Req == Is("req") /\ st = "idle" /\ st' = "wait" /\ cur' = E.b /\ exd' = FALSE /\ UNCHANGED <<mtu, ans>>
\* The request is executed as it has been sent, and only once
Exec == Is("exec") /\ st = "wait" /\ ~exd /\ E.b = cur /\ exd' = TRUE /\ ans' = E.r /\ UNCHANGED <<mtu, st, cur>>
\* The response is the result of that execution, and comes once
Resp == Is("resp") /\ st = "wait" /\ exd /\ E.b = ans /\ st' = "idle" /\ UNCHANGED <<mtu, cur, exd, ans>>
\* After a number of retransmissions over a channel that does not lose anything, there must have been a response
Fair == Is("fair") /\ st = "idle" /\ UNCHANGED <<mtu, st, cur, exd, ans>>
Restart == Is("restart") /\ st' = "idle" /\ UNCHANGED <<mtu, cur, exd, ans>>
Frame == Is("frame") /\ (mtu > 0 => E.n <= mtu) /\ UNCHANGED <<mtu, st, cur, exd, ans>>
Many == Is("many") /\ st = "idle" /\ E.ok = E.n /\ UNCHANGED <<mtu, st, cur, exd, ans>>
\* Sequence numbers: 7 bits per byte, most significant first, continuation flag 0x80, but 6 bits and 0x40 in the first
SeqEnc(q) == IF q < 64 THEN <<q>>
             ELSE IF q < 8192 THEN <<64 + (q \div 128), q % 128>>
             ELSE IF q < 1048576 THEN <<64 + (q \div 16384), 128 + ((q \div 128) % 128), q % 128>>
             ELSE <<64 + (q \div 2097152), 128 + ((q \div 16384) % 128), 128 + ((q \div 128) % 128), q % 128>>
SeqMod == 134217728
Seq1 == Is("seq") /\ E.b = SeqEnc(E.n % SeqMod) /\ E.d = E.n % SeqMod /\ E.rest = 1 /\ UNCHANGED <<mtu, st, cur, exd, ans>>
\* An escape at the end of a chunk may be seen as terminal output too
Nd == Is("nd") /\ (\A i \in 1..Len(E.b) : E.b[i] = 27) /\ UNCHANGED <<mtu, st, cur, exd, ans>>
Next == Nd \/ New \/ Req \/ Exec \/ Resp \/ Fair \/ Restart \/ Frame \/ Many \/ Seq1
Spec == Init /\ [][Next]_vars
================================================================================
