-------------------------------- MODULE TraceLib --------------------------------
(* Reading of recorded executions. A trace file holds many independent traces, each
   of which starts by an "init" event. Acceptance: the last line has been reached. *)
EXTENDS Naturals, Integers, Sequences, TLC, IOUtils, Json
Trace == ndJsonDeserialize(IOEnv.TRACE)
Reached == TLCGet("stats").diameter
\* diameter counts the states: 1 + number of consumed lines
Accepted == LET d == Reached IN
    IF d - 1 = Len(Trace) THEN TRUE
    ELSE PrintT(<<"TRACEPOS", d>>) /\ FALSE
Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Has(r, f) == f \in DOMAIN r
================================================================================
