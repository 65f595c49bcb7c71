------------------------------ MODULE DebugArqTrace ------------------------------
(* Every frame that goes in or out of a real DebugArqLayer, and what its upper layer
   gets and sends, must be a step of the target of DebugArqSrv. In client mode, also what
   the client and the application observe is checked (as in DebugArq). *)
EXTENDS TraceLib, DebugArqSrv
VARIABLES l, s, size, maxbuf, mid, cur, exp, app, once, execs, asked, busy
vars == <<l, s, size, maxbuf, mid, cur, exp, app, once, execs, asked, busy>>

E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
\* Sequence numbers are coded 7 bits per byte, most significant first; the first byte has 6 bits, a
\* continuation flag 0x40, and the reset flag 0x80.
VlqLen(b) == LET RECURSIVE F(_) F(i) == IF i > Len(b) THEN 0
                                        ELSE IF b[i] >= 128 THEN F(i + 1) ELSE i
             IN IF Len(b) = 0 THEN 0 ELSE IF (b[1] % 128) < 64 THEN 1 ELSE F(2)
VlqVal(b, n) == LET RECURSIVE F(_, _) F(i, v) == IF i > n THEN v ELSE F(i + 1, (v * 128) + (b[i] % 128))
                IN IF n = 0 THEN -1 ELSE F(2, (b[1] % 64))
VlqEnc(q, r) ==
    LET R == IF r THEN 128 ELSE 0 IN
    IF q < 64 THEN <<R + q>>
    ELSE IF q < 8192 THEN <<R + 64 + (q \div 128), (q % 128)>>
    ELSE IF q < 1048576 THEN <<R + 64 + (q \div 16384), 128 + ((q \div 128) % 128), (q % 128)>>
    ELSE <<R + 64 + (q \div 2097152), 128 + ((q \div 16384) % 128), 128 + ((q \div 128) % 128), (q % 128)>>

Init == /\ l = 1 /\ s = SrvInit /\ size = 0 /\ maxbuf = 0 /\ mid = FALSE /\ cur = <<>> /\ exp = <<>>
        /\ app = <<>> /\ once = FALSE /\ execs = {} /\ asked = 0 /\ busy = FALSE
New == /\ Is("init") /\ exp = <<>>
       /\ E.up = (IF E.mtu = 0 THEN 0 ELSE IF E.mtu <= 4 THEN 1 ELSE E.mtu - 4)
       /\ s' = SrvInit /\ size' = 0 /\ maxbuf' = E.maxbuf /\ mid' = FALSE /\ cur' = <<>> /\ exp' = <<>>
       /\ app' = <<>> /\ once' = E.once /\ execs' = {} /\ asked' = 0 /\ busy' = FALSE

OutEv(b) == [e |-> "out", b |-> b]
UpEv(b) == [e |-> "up", b |-> b]
In ==
    /\ Is("in") /\ exp = <<>> /\ ~mid /\ ~busy /\ busy' = TRUE
    /\ IF Len(E.b) = 0 THEN UNCHANGED <<s, size, exp, app>>
       ELSE LET n == VlqLen(E.b)
                r == SrvIn(s, E.b[1] >= 128, VlqVal(E.b, n))
            IN /\ s' = r.s
               /\ size' = IF r.s.buf = <<>> THEN 0 ELSE size
               /\ exp' = (IF r.ack THEN <<OutEv(<<128>>)>> ELSE <<>>)
                         \o [i \in 1..Len(r.resend) |-> OutEv(r.resend[i])]
                         \o (IF r.deliver THEN <<UpEv(SubSeq(E.b, n + 1, Len(E.b)))>> ELSE <<>>)
               /\ app' = IF r.ack THEN <<>> ELSE app
    /\ UNCHANGED <<maxbuf, mid, cur, once, execs, asked>>
Done == /\ Is("done") /\ exp = <<>> /\ busy /\ busy' = FALSE /\ UNCHANGED <<s, size, maxbuf, mid, cur, exp, app, once, execs, asked>>

\* A fragment goes up; when it is the last one ('E'), the application gets the whole request.
Up ==
    /\ Is("up") /\ exp # <<>> /\ Head(exp) = UpEv(E.b)
    /\ IF Len(E.b) = 0 THEN app' = app /\ exp' = Tail(exp)
       ELSE LET a == app \o SubSeq(E.b, 1, Len(E.b) - 1) IN
            IF E.b[Len(E.b)] = 69
            THEN app' = <<>> /\ exp' = <<[e |-> "req", b |-> a]>> \o Tail(exp)
            ELSE app' = a /\ exp' = Tail(exp)
    /\ UNCHANGED <<s, size, maxbuf, mid, cur, once, execs, asked, busy>>
Req == /\ Is("req") /\ exp # <<>> /\ Head(exp) = [e |-> "req", b |-> E.b] /\ exp' = Tail(exp)
       /\ UNCHANGED <<s, size, maxbuf, mid, cur, app, once, execs, asked, busy>>
Out == /\ Is("out") /\ exp # <<>> /\ Head(exp) = OutEv(E.b) /\ exp' = Tail(exp)
       /\ UNCHANGED <<s, size, maxbuf, mid, cur, app, once, execs, asked, busy>>

\* (A part of) a response frame. cur: the frame as it will be sent.
Enc ==
    /\ Is("enc") /\ exp = <<>>
    /\ LET s1 == SrvAnswer(s)
           over == ~s1.unb /\ maxbuf > 0 /\ size + Len(E.b) > maxbuf
           s2 == IF over THEN SrvUnbuffered(s1) ELSE s1
           hd == IF mid THEN <<>> ELSE VlqEnc(s2.eseq, s2.rst)
           s3 == IF mid THEN s2 ELSE [s2 EXCEPT !.eseq = NextSeq(@), !.rst = FALSE]
           c == cur \o hd \o E.b
       IN /\ size' = IF s3.unb THEN 0 ELSE size + Len(hd) + Len(E.b)
          /\ IF E.l
             THEN /\ mid' = FALSE /\ cur' = <<>> /\ exp' = <<OutEv(c)>>
                  /\ s' = [s3 EXCEPT !.buf = IF s3.unb THEN <<>> ELSE Append(@, c)]
             ELSE mid' = TRUE /\ cur' = c /\ s' = s3 /\ UNCHANGED exp
    /\ UNCHANGED <<maxbuf, app, once, execs, asked, busy>>
Purge ==
    /\ Is("purge") /\ exp = <<>>
    /\ IF s.unb = E.v THEN UNCHANGED <<s, size>>
       ELSE IF E.v THEN s' = SrvUnbuffered(s) /\ size' = 0
       ELSE s' = (IF mid THEN s ELSE [s EXCEPT !.unb = FALSE]) /\ UNCHANGED size
    /\ UNCHANGED <<maxbuf, mid, cur, exp, app, once, execs, asked, busy>>
Reset == /\ Is("reset") /\ s' = SrvInit /\ size' = 0 /\ mid' = FALSE /\ cur' = <<>> /\ exp' = <<>> /\ app' = <<>>
         /\ UNCHANGED <<maxbuf, once, execs, asked, busy>>

Adv(q, n) == ((q - 1 + n) % (SeqMod - 1)) + 1
\* Many complete single-frame requests and responses
Bulk ==
    /\ Is("bulk") /\ exp = <<>> /\ ~mid /\ E.n > 1
    /\ s.ds \in {"idle", "decoded", "retransmit", "decoding"} /\ s.dseq = E.q
    /\ E.ups = E.n /\ E.outs = E.n
    /\ E.first = VlqEnc(s.eseq, s.rst) \o <<111, 107>>
    /\ LET q == Adv(s.eseq, E.n - 1) f == VlqEnc(q, FALSE) \o <<111, 107>> IN
       /\ E.last = f
       /\ s' = [ds |-> "decoded", dseq |-> Adv(E.q, E.n), dstart |-> Adv(E.q, E.n - 1), unb |-> FALSE,
                eseq |-> NextSeq(q), rst |-> FALSE, buf |-> <<f>>]
       /\ size' = Len(f)
    /\ UNCHANGED <<maxbuf, mid, cur, exp, app, once, execs, asked, busy>>

\* Client and application
Ask == Is("ask") /\ asked' = E.k /\ UNCHANGED <<s, size, maxbuf, mid, cur, exp, app, once, execs, busy>>
Exec == /\ Is("exec") /\ E.k > 0 /\ E.k <= asked /\ (once => E.x = 1)
        /\ execs' = execs \cup {<<E.k, E.x>>} /\ UNCHANGED <<s, size, maxbuf, mid, cur, exp, app, once, asked, busy>>
Ans == /\ Is("ans") /\ E.ok /\ E.kk = E.k /\ <<E.k, E.x>> \in execs
       /\ UNCHANGED <<s, size, maxbuf, mid, cur, exp, app, once, execs, asked, busy>>
Fin == /\ Is("fin") /\ E.idle /\ UNCHANGED <<s, size, maxbuf, mid, cur, exp, app, once, execs, asked, busy>>

Next == New \/ In \/ Done \/ Up \/ Req \/ Out \/ Enc \/ Purge \/ Reset \/ Bulk \/ Ask \/ Exec \/ Ans \/ Fin
Spec == Init /\ [][Next]_vars
================================================================================
