---------------------------------- MODULE Arq ----------------------------------
(* The ARQ layer: two endpoints (0 and 1), each with a queue of messages of which
   only the head is on its way (stop-and-wait), connected by two FIFO channels
   that may lose and duplicate frames.  A frame is an optional ack plus an
   optional message.  Message id 0 is a NOP; a NOP with sequence number 0 is a
   reset.  Actions follow the public calls of the layer: Send (encode), Flush,
   KeepAlive, Reset and Deliver (decode of the head of a channel).

   Discipline = TRUE restricts transmissions while the connection is being
   (re)established to moments at which nothing is in flight.  Without it, the
   design has a known flaw: crossing handshakes never settle (see ArqFree.cfg). *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS SeqMax, MaxMsg, MaxLoss, MaxDup, MaxReset, Cap, Discipline, SimLen

VARIABLES q, snd, rcv, ch, nsent, last, dropped, credit, err, faults, hist

vars == <<q, snd, rcv, ch, nsent, last, dropped, credit, err, faults, hist>>
view == <<q, snd, rcv, ch, nsent, last, dropped, credit, err, faults>>
Side == {0, 1}
Other(s) == 1 - s

NextSeq(x) == IF x = SeqMax THEN 1 ELSE x + 1
NoMsg == <<>>
NoAck == SeqMax + 1
Frame(a, m) == [ack |-> a, msg |-> m]
IsReset(m) == m # NoMsg /\ m[1] = 0

Hist(x) == hist' = IF SimLen > 0 THEN Append(hist, x) ELSE hist

InFlight == Len(ch[0]) + Len(ch[1])
Handshake ==
    \/ \E s \in Side : rcv[s] = 0
    \/ \E s \in Side : q[s] # <<>> /\ q[s][1][1] = 0
    \/ \E s \in Side : \E i \in 1..Len(ch[s]) : IsReset(ch[s][i].msg)
MayTransmit(s) == (Discipline /\ Handshake) => InFlight = 0

Init ==
    /\ q = [s \in Side |-> << <<0, 0>> >>]
    /\ snd = [s \in Side |-> 1]
    /\ rcv = [s \in Side |-> 0]
    /\ ch = [s \in Side |-> <<>>]
    /\ nsent = [s \in Side |-> 0]
    /\ last = [s \in Side |-> 0]
    /\ dropped = [s \in Side |-> {}]
    /\ credit = [s \in Side |-> 0]
    /\ err = FALSE
    /\ faults = [loss |-> MaxLoss, dup |-> MaxDup, reset |-> MaxReset]
    /\ hist = <<>>

Put(c, s, f) == IF Len(c[s]) < Cap THEN [c EXCEPT ![s] = Append(@, f)] ELSE c

Send(s) ==
    /\ nsent[s] < MaxMsg
    /\ MayTransmit(s)
    /\ Len(ch[s]) < Cap
    /\ LET m == nsent[s] + 1
           nq == Append(q[s], <<snd[s], m>>)
       IN /\ nsent' = [nsent EXCEPT ![s] = m]
          /\ q' = [q EXCEPT ![s] = nq]
          /\ snd' = [snd EXCEPT ![s] = NextSeq(@)]
          /\ ch' = Put(ch, s, Frame(NoAck, Head(nq)))
    /\ Hist(<<"s", s>>)
    /\ UNCHANGED <<rcv, last, dropped, credit, err, faults>>

Flush(s) ==
    /\ q[s] # <<>>
    /\ MayTransmit(s)
    /\ Len(ch[s]) < Cap
    /\ ch' = Put(ch, s, Frame(NoAck, Head(q[s])))
    /\ Hist(<<"f", s>>)
    /\ UNCHANGED <<q, snd, rcv, nsent, last, dropped, credit, err, faults>>

KeepAlive(s) ==
    /\ q[s] = <<>>
    /\ MayTransmit(s)
    /\ faults.loss > 0          \* bounded, as it only adds NOPs
    /\ faults' = [faults EXCEPT !.loss = @ - 1]
    /\ Len(ch[s]) < Cap
    /\ q' = [q EXCEPT ![s] = << <<snd[s], 0>> >>]
    /\ snd' = [snd EXCEPT ![s] = NextSeq(@)]
    /\ ch' = Put(ch, s, Frame(NoAck, <<snd[s], 0>>))
    /\ Hist(<<"k", s>>)
    /\ UNCHANGED <<rcv, nsent, last, dropped, credit, err>>

\* The endpoint starts over: everything it queued is dropped; as a restart takes
\* longer than a frame lives, nothing is in flight anymore (with Discipline).
Reset(s) ==
    /\ faults.reset > 0
    /\ faults' = [faults EXCEPT !.reset = @ - 1]
    /\ dropped' = [dropped EXCEPT ![s] = @ \cup ({q[s][i][2] : i \in 1..Len(q[s])} \ {0})]
    /\ q' = [q EXCEPT ![s] = << <<0, 0>> >>]
    /\ snd' = [snd EXCEPT ![s] = 1]
    /\ rcv' = [rcv EXCEPT ![s] = 0]
    /\ ch' = [c \in Side |-> LET old == IF Discipline THEN <<>> ELSE ch[c]
                             IN IF c = s THEN Append(old, Frame(NoAck, <<0, 0>>)) ELSE old]
    /\ Hist(<<"r", s>>)
    /\ UNCHANGED <<nsent, last, credit, err>>

Lose(s) ==
    /\ ch[s] # <<>>
    /\ faults.loss > 0
    /\ faults' = [faults EXCEPT !.loss = @ - 1]
    /\ ch' = [ch EXCEPT ![s] = Tail(@)]
    /\ Hist(<<"x", s>>)
    /\ UNCHANGED <<q, snd, rcv, nsent, last, dropped, credit, err>>

Dup(s) ==
    /\ ch[s] # <<>> /\ Len(ch[s]) < Cap
    /\ Discipline => ~Handshake
    /\ faults.dup > 0
    /\ faults' = [faults EXCEPT !.dup = @ - 1]
    /\ ch' = [ch EXCEPT ![s] = <<Head(@)>> \o @]
    /\ Hist(<<"2", s>>)
    /\ UNCHANGED <<q, snd, rcv, nsent, last, dropped, credit, err>>

RECURSIVE Renumber(_, _)
Renumber(l, n) == IF l = <<>> THEN <<>> ELSE << <<n, Head(l)[2]>> >> \o Renumber(Tail(l), NextSeq(n))
RECURSIVE After(_, _)
After(l, n) == IF l = <<>> THEN n ELSE After(Tail(l), NextSeq(n))

\* The head of the channel from p arrives at s.
Deliver(p) ==
    /\ ch[p] # <<>>
    /\ LET s == Other(p)
           f == Head(ch[p])
           acked == f.ack # NoAck /\ q[s] # <<>> /\ Head(q[s])[1] = f.ack
           q1 == IF acked THEN Tail(q[s]) ELSE q[s]
           reconnect == acked /\ f.ack = 0
           proper == f.msg # NoMsg /\ f.msg[1] = rcv[s]
           unexpected == f.msg # NoMsg /\ ~proper /\ f.msg[1] = 0
           again == f.msg # NoMsg /\ ~proper /\ ~unexpected /\ NextSeq(f.msg[1]) = rcv[s]
           stray == f.msg # NoMsg /\ ~proper /\ ~unexpected /\ ~again
           inject == unexpected /\ ~reconnect /\ (q1 = <<>> \/ Head(q1) # <<0, 0>>)
           q2 == IF inject THEN << <<0, 0>> >> \o Renumber(q1, 1) ELSE q1
           resp == IF proper \/ unexpected \/ again THEN f.msg[1] ELSE NoAck
           tx == (acked \/ proper \/ unexpected \/ stray) /\ q2 # <<>>
           deliver == proper /\ f.msg[2] # 0
           m == f.msg[2]
           c1 == [ch EXCEPT ![p] = Tail(@)]
       IN /\ q' = [q EXCEPT ![s] = q2]
          /\ snd' = [snd EXCEPT ![s] = IF inject THEN After(q1, 1) ELSE @]
          /\ rcv' = [rcv EXCEPT ![s] = IF proper THEN NextSeq(@) ELSE IF unexpected THEN 1 ELSE @]
          /\ ch' = IF resp # NoAck \/ tx
                   THEN [c1 EXCEPT ![s] = Append(@, Frame(resp, IF tx THEN Head(q2) ELSE NoMsg))]
                   ELSE c1
          /\ last' = [last EXCEPT ![s] = IF deliver THEN m ELSE @]
          \* a message that is still queued when its sender handles a reset may be repeated once
          /\ credit' = [credit EXCEPT ![s] = IF deliver /\ m = last[s] /\ @ > 0 THEN @ - 1 ELSE @,
                                      ![p] = IF unexpected THEN @ + 1 ELSE @]
          /\ err' = (err \/ (deliver /\ ~(
                        \/ m > last[s] /\ \A i \in (last[s] + 1)..(m - 1) : i \in dropped[p]
                        \/ m = last[s] /\ credit[s] > 0)))
    /\ Hist(<<"d", p>>)
    /\ UNCHANGED <<nsent, dropped, faults>>

Next == \E s \in Side : Send(s) \/ Flush(s) \/ KeepAlive(s) \/ Reset(s) \/ Lose(s) \/ Dup(s) \/ Deliver(s)

\* Frames get through, and endpoints trigger retransmission once nothing is in flight.
IdleFlush(s) == InFlight = 0 /\ Flush(s)
Fair == \A s \in Side : WF_vars(Deliver(s)) /\ WF_vars(IdleFlush(s))
Spec == Init /\ [][Next]_vars
LiveSpec == Init /\ [][\E s \in Side : Send(s) \/ Reset(s) \/ Lose(s) \/ Dup(s) \/ Deliver(s) \/ IdleFlush(s)]_vars /\ Fair

Settled == \A s \in Side : q[s] = <<>> /\ ch[s] = <<>> /\ rcv[s] # 0
AllDelivered == \A s \in Side : \A m \in 1..nsent[s] : m > last[Other(s)] => m \in dropped[s]

ExactlyOnce == ~err
SettledImpliesDelivered == Settled => AllDelivered
EventuallySettled == <>[]Settled

Bounded == \A s \in Side : Len(ch[s]) <= Cap

\* simulation: print the behaviour
PrintHist == (SimLen > 0 /\ Len(hist) = SimLen) => PrintT("BEH " \o ToJson(hist))
================================================================================
