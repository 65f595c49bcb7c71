------------------------------ MODULE DebugArqSrv ------------------------------
(* The target (server) side of the Debug ARQ protocol, as a function of its state and
   its input. Both the design model (DebugArq) and the trace spec (DebugArqTrace) use it.
     ds      idle | decoding (a request comes in) | decoded (request has been answered)
             | retransmit (answered request comes in again)
     dseq    sequence number that is expected next
     dstart  sequence number of the first frame of the current request
     unb     the response is not (any longer) kept for retransmission
     eseq    sequence number of the next response frame
     rst     the next response frame must carry the reset flag
     buf     response frames kept for retransmission                              *)
EXTENDS Naturals, Sequences
CONSTANT SeqMod      \* 0x8000000 in the implementation
NextSeq(s) == IF (s + 1) % SeqMod = 0 THEN 1 ELSE (s + 1) % SeqMod

SrvInit == [ds |-> "idle", dseq |-> 1, dstart |-> 0, unb |-> FALSE, eseq |-> 1, rst |-> TRUE, buf |-> <<>>]

\* A frame with sequence number q and reset flag r: first the housekeeping...
SrvReset(s, q) == [s EXCEPT !.ds = "idle", !.dseq = NextSeq(q), !.eseq = 1, !.unb = FALSE, !.rst = FALSE, !.buf = <<>>]
SrvPrep(s, q) ==
    IF s.ds \in {"decoded", "retransmit"}
    THEN IF q = s.dseq
         THEN [s EXCEPT !.ds = "idle", !.unb = FALSE, !.buf = <<>>]              \* next request
         ELSE IF q = s.dstart
         THEN IF s.unb
              THEN [s EXCEPT !.ds = "idle", !.dseq = s.dstart, !.unb = FALSE, !.rst = TRUE]   \* execute again
              ELSE [s EXCEPT !.ds = "retransmit"]
         ELSE s
    ELSE s
\* ...then the outcome: [s |-> new state, ack, resend, deliver]
SrvIn(s0, r, q) ==
    LET s == SrvPrep(IF r THEN SrvReset(s0, q) ELSE s0, q) IN
    IF s.ds = "retransmit"
    THEN IF NextSeq(q) = s.dseq
         THEN [s |-> [s EXCEPT !.ds = "decoded"], ack |-> r, resend |-> s.buf, deliver |-> FALSE]
         ELSE [s |-> s, ack |-> r, resend |-> <<>>, deliver |-> FALSE]
    ELSE IF s.ds \in {"idle", "decoding"}
    THEN LET s2 == IF s.ds = "idle" THEN [s EXCEPT !.dstart = s.dseq, !.ds = "decoding"] ELSE s IN
         IF q = s2.dseq
         THEN [s |-> [s2 EXCEPT !.dseq = NextSeq(q)], ack |-> r, resend |-> <<>>, deliver |-> TRUE]
         ELSE [s |-> s2, ack |-> r, resend |-> <<>>, deliver |-> FALSE]
    ELSE [s |-> s, ack |-> r, resend |-> <<>>, deliver |-> FALSE]

\* The first part of a response means that the request was complete.
SrvAnswer(s) == IF s.ds = "decoding" THEN [s EXCEPT !.ds = "decoded"] ELSE s
SrvUnbuffered(s) == [s EXCEPT !.unb = TRUE, !.buf = <<>>]
================================================================================
