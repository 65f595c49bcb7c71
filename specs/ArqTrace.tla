-------------------------------- MODULE ArqTrace --------------------------------
(* What the users of both ARQ endpoints may observe; same bookkeeping as the
   monitor variables (last, dropped, credit) of Arq.tla. *)
EXTENDS TraceLib

VARIABLES l, nsent, handledAt, handled, last, dups, dropTo, connAt, need
vars == <<l, nsent, handledAt, handled, last, dups, dropTo, connAt, need>>
Side == {0, 1}
Other(s) == 1 - s
Zero == [s \in Side |-> 0]

Fresh == /\ nsent = Zero /\ handled = Zero /\ last = Zero /\ dups = Zero /\ dropTo = Zero /\ connAt = Zero
         /\ handledAt = [s \in Side |-> <<>>] /\ need = TRUE
Init == l = 1 /\ Fresh
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1

NewTrace ==
    /\ Is("init") /\ nsent' = Zero /\ handled' = Zero /\ last' = Zero /\ dups' = Zero /\ dropTo' = Zero
    /\ connAt' = Zero /\ handledAt' = [s \in Side |-> <<>>] /\ need' = TRUE

Send ==
    /\ Is("send") /\ E.m = nsent[E.s] + 1
    /\ nsent' = [nsent EXCEPT ![E.s] = E.m]
    /\ handledAt' = [handledAt EXCEPT ![E.s] = Append(@, handled[E.s])]
    /\ UNCHANGED <<handled, last, dups, dropTo, connAt, need>>

\* A reset frame arrives at s.
ResetFrame ==
    /\ Is("rst")
    /\ handled' = [handled EXCEPT ![E.s] = @ + 1]
    /\ UNCHANGED <<nsent, handledAt, last, dups, dropTo, connAt, need>>

\* s starts over; what it has not delivered yet is not delivered (or was just underway)
Reset ==
    /\ Is("reset")
    /\ dropTo' = [dropTo EXCEPT ![E.s] = nsent[E.s]]
    /\ need' = TRUE
    /\ UNCHANGED <<nsent, handledAt, handled, last, dups, connAt>>

RecvNew(s, p, m) == m > last[s] /\ (m = last[s] + 1 \/ m - 1 <= dropTo[p])
    /\ last' = [last EXCEPT ![s] = m] /\ dups' = [dups EXCEPT ![s] = 0]
\* The message that was underway when its sender was told to start over, may be repeated.
RecvAgain(s, p, m) == m = last[s] /\ m > 0 /\ handled[p] - handledAt[p][m] > dups[s]
    /\ dups' = [dups EXCEPT ![s] = @ + 1] /\ UNCHANGED last
Recv ==
    /\ Is("recv") /\ E.ok /\ E.m <= nsent[Other(E.s)]
    /\ (RecvNew(E.s, Other(E.s), E.m) \/ RecvAgain(E.s, Other(E.s), E.m))
    /\ UNCHANGED <<nsent, handledAt, handled, dropTo, connAt, need>>

Quiet ==
    /\ Is("quiet")
    /\ E.done /\ ~E.wait /\ E.extra = 0 /\ E.rt0 = 0 /\ E.rt1 = 0
    /\ \A s \in Side : nsent[s] <= Max(last[Other(s)], dropTo[s])
    /\ (need => E.conn0 > connAt[0] /\ E.conn1 > connAt[1])
    /\ connAt' = [s \in Side |-> IF s = 0 THEN E.conn0 ELSE E.conn1]
    /\ need' = FALSE
    /\ UNCHANGED <<nsent, handledAt, handled, last, dups, dropTo>>

Hole ==
    /\ Is("hole")
    /\ IF E.waiting
       THEN E.sent >= E.n /\ E.rt1 >= Min(200, E.rt0 + E.n) /\ (E.rt1 >= 10 => E.events > 0) /\ (E.rt1 < 9 => E.events = 0)
       ELSE E.sent = 0 /\ E.events = 0
    /\ UNCHANGED <<nsent, handledAt, handled, last, dups, dropTo, connAt, need>>

Mtu ==
    /\ Is("mtu") /\ (IF E.low = 0 THEN E.up = 0 ELSE E.up >= 1 /\ (E.low > 2 => E.up = E.low - 2))
    /\ UNCHANGED <<nsent, handledAt, handled, last, dups, dropTo, connAt, need>>

Next == NewTrace \/ Send \/ ResetFrame \/ Reset \/ Recv \/ Quiet \/ Hole \/ Mtu
Spec == Init /\ [][Next]_vars
================================================================================
