-------------------------------- MODULE DebugArq --------------------------------
(* A debug client that follows the protocol documentation, a lossy and duplicating FIFO
   channel, and the target of DebugArqSrv below a reassembling application. *)
EXTENDS DebugArqSrv, Integers, TLC, Json
CONSTANTS MaxReq,      \* number of requests
          MaxRestart,  \* number of client restarts
          MaxTimeout,  \* retransmissions per request
          MaxFaults,   \* lost/duplicated frames
          Premature,   \* the client may retransmit while frames are in flight
          Dup,         \* frames may be duplicated
          Purge,       \* responses may be purgeable
          Live         \* bookkeeping bounds are lifted when checking liveness
VARIABLES srv, app, execs, wrong,        \* target
          c,                             \* client
          up, down, faults, restarts, hist
vars == <<srv, app, execs, wrong, c, up, down, faults, restarts, hist>>

NF == 1..2
\* client: st idle/sync/wait, k request, nf frames, s0 seq of the first frame of the request,
\* rseq: the sequence number to reset to, exp expected response seq, exp0 same at the start of the response,
\* got: collected frames, to: timeouts
CInit == [st |-> "sync", k |-> 0, nf |-> 1, s0 |-> 0, exp |-> 1, exp0 |-> 1, got |-> <<>>, to |-> 0, bad |-> FALSE, gen |-> 0]
Init == /\ srv = SrvInit /\ app = <<>> /\ execs = <<>> /\ wrong = FALSE
        /\ c = CInit /\ up = <<[seq |-> 0, rst |-> TRUE, k |-> 0, i |-> 0, n |-> 0]>> /\ down = <<>>
        /\ faults = 0 /\ restarts = 0 /\ hist = <<>>
Frames(k, n, s0) == [i \in 1..n |-> [seq |-> IF i = 1 THEN s0 ELSE NextSeq(s0), rst |-> FALSE, k |-> k, i |-> i, n |-> n]]
LastSeq(x) == IF x.nf = 1 THEN x.s0 ELSE NextSeq(x.s0)
H(x) == hist' = IF Live THEN hist ELSE Append(hist, x)

SendReq == \E n \in NF :
    /\ c.st = "idle" /\ c.k < MaxReq
    /\ LET s0 == NextSeq(LastSeq(c)) IN
       /\ c' = [c EXCEPT !.st = "wait", !.k = @ + 1, !.nf = n, !.s0 = s0, !.exp0 = c.exp, !.got = <<>>, !.to = 0]
       /\ up' = up \o Frames(c.k + 1, n, s0)
       /\ H(<<"q", n>>)
    /\ UNCHANGED <<srv, app, execs, wrong, down, faults, restarts>>
Timeout ==
    /\ c.st \in {"wait", "sync"} /\ (Live \/ c.to < MaxTimeout)
    /\ \/ up = <<>> /\ down = <<>> /\ UNCHANGED faults
       \/ Premature /\ faults < MaxFaults /\ faults' = faults + 1 /\ Len(up) < 4
    /\ c' = [c EXCEPT !.to = IF Live THEN @ ELSE @ + 1, !.exp = c.exp0, !.got = <<>>]
    /\ up' = up \o (IF c.st = "sync" THEN <<[seq |-> 0, rst |-> TRUE, k |-> 0, i |-> 0, n |-> 0]>> ELSE Frames(c.k, c.nf, c.s0))
    /\ H(<<"t">>)
    /\ UNCHANGED <<srv, app, execs, wrong, down, restarts>>
\* The client restarts (crash) or gives up and starts over; the frames in flight die out.
Restart ==
    /\ restarts < MaxRestart
    /\ restarts' = restarts + 1
    /\ c' = [CInit EXCEPT !.k = c.k, !.gen = c.gen + 1]
    /\ up' = <<[seq |-> 0, rst |-> TRUE, k |-> 0, i |-> 0, n |-> 0]>> /\ down' = <<>>
    /\ H(<<"z">>)
    /\ UNCHANGED <<srv, app, execs, wrong, faults>>

Lose == /\ faults < MaxFaults
        /\ \/ up # <<>> /\ up' = Tail(up) /\ UNCHANGED down /\ H(<<"x", 0>>)
           \/ down # <<>> /\ down' = Tail(down) /\ UNCHANGED up /\ H(<<"x", 1>>)
        /\ faults' = faults + 1
        /\ UNCHANGED <<srv, app, execs, wrong, c, restarts>>
Duplicate == /\ Dup /\ faults < MaxFaults
        /\ \/ up # <<>> /\ Len(up) < 4 /\ up' = <<Head(up)>> \o up /\ UNCHANGED down /\ H(<<"2", 0>>)
           \/ down # <<>> /\ Len(down) < 4 /\ down' = <<Head(down)>> \o down /\ UNCHANGED up /\ H(<<"2", 1>>)
        /\ faults' = faults + 1
        /\ UNCHANGED <<srv, app, execs, wrong, c, restarts>>

\* The target processes a frame. A new execution may give a different answer (x).
Respond(s, f, nr, purge) ==
    LET x == IF f.k \in DOMAIN execs THEN execs[f.k] + 1 ELSE 1
        s1 == SrvAnswer(s)
        s2 == IF purge THEN SrvUnbuffered(s1) ELSE s1
        s3 == [s2 EXCEPT !.rst = FALSE, !.eseq = IF nr = 1 THEN NextSeq(@) ELSE NextSeq(NextSeq(@))]
        fr == [i \in 1..nr |-> [seq |-> IF i = 1 THEN s2.eseq ELSE NextSeq(s2.eseq), rst |-> i = 1 /\ s2.rst, k |-> f.k, x |-> x, i |-> i, n |-> nr]]
    IN /\ srv' = [s3 EXCEPT !.buf = IF s3.unb THEN <<>> ELSE fr]
       /\ down' = down \o fr
       /\ execs' = IF f.k \in DOMAIN execs THEN [execs EXCEPT ![f.k] = x] ELSE Append(execs, x)
Ack == [seq |-> 0, rst |-> TRUE, k |-> 0, x |-> 0, i |-> 0, n |-> 0]
Target ==
    /\ up # <<>> /\ up' = Tail(up)
    /\ LET f == Head(up)
           r == SrvIn(srv, f.rst, f.seq)
           app1 == IF r.ack THEN <<>> ELSE app          \* a reset drops a partial request
       IN IF r.deliver
          THEN LET a == Append(app1, f) IN
               /\ wrong' = (wrong \/ a[1].i # 1 \/ a[1].k # f.k \/ f.i # Len(a))
               /\ IF f.i = f.n
                  THEN /\ app' = <<>>
                       /\ \E nr \in 1..2, p \in BOOLEAN :
                            (p => Purge) /\ Respond(r.s, f, nr, p) /\ H(<<"d", 0, nr, p>>)
                  ELSE app' = a /\ srv' = r.s /\ H(<<"d", 0, 0, FALSE>>) /\ UNCHANGED <<execs, down>>
          ELSE /\ app' = app1 /\ srv' = r.s /\ down' = down \o (IF r.ack THEN <<Ack>> ELSE <<>>) \o r.resend
               /\ H(<<"d", 0, 0, FALSE>>) /\ UNCHANGED <<execs, wrong>>
    /\ UNCHANGED <<c, faults, restarts>>
Client ==
    /\ down # <<>> /\ down' = Tail(down)
    /\ LET f == Head(down) IN
       IF f.k = 0
       THEN c' = IF c.st = "sync" THEN [c EXCEPT !.st = "idle", !.exp = 1, !.exp0 = 1, !.s0 = 0, !.nf = 1, !.to = 0] ELSE c
       ELSE IF c.st # "wait" THEN c' = c
       ELSE LET c1 == IF f.rst THEN [c EXCEPT !.exp = f.seq, !.exp0 = f.seq, !.got = <<>>] ELSE c IN
            IF f.seq # c1.exp THEN c' = c1
            ELSE LET g == Append(c1.got, f) IN
                 c' = [c1 EXCEPT !.exp = NextSeq(f.seq), !.got = IF f.i = f.n THEN <<>> ELSE g,
                          !.st = IF f.i = f.n THEN "idle" ELSE "wait",
                          !.bad = c1.bad \/ f.k # c.k \/ g[1].x # f.x \/ f.i # Len(g)]
    /\ H(<<"d", 1>>)
    /\ UNCHANGED <<srv, app, execs, wrong, up, faults, restarts>>

Next == SendReq \/ Timeout \/ Restart \/ Lose \/ Duplicate \/ Target \/ Client
Spec == Init /\ [][Next]_vars
Fair == /\ WF_vars(SendReq) /\ WF_vars(Target) /\ WF_vars(Client) /\ WF_vars(Timeout /\ up = <<>> /\ down = <<>>)
LiveSpec == Spec /\ Fair
View == <<srv, app, execs, wrong, c, up, down, faults, restarts>>

\* A precious request is executed at most once (purgeable ones: as often as it takes)
Once == ~Purge => \A k \in DOMAIN execs : execs[k] <= 1
NoMix == ~wrong
RightAnswer == ~c.bad
Answered == <>[](c.k = MaxReq /\ c.st = "idle")
CONSTANT SimLen
Sim == IF Len(hist) = SimLen THEN PrintT("BEH " \o ToJson(hist)) ELSE TRUE
================================================================================
