-------------------------------- MODULE PipesMC --------------------------------
(* What the semantics of Pipes guarantees, for all histories up to some length. *)
EXTENDS Pipes, FiniteSets, TLC
CONSTANTS Depth, V
S(k, a, q) == [k |-> k, a |-> a, q |-> q]
P(s) == [kind |-> "open", tin |-> "i", tout |-> "i", segs |-> s]
Interval == 2
Net == <<
    P(<<S("log", <<11>>, <<>>), S("cv", <<12>>, <<>>), S("chg", <<0, 0>>, <<4>>), S("rate", <<0, 0, Interval>>, <<5>>), S("trg", <<0, 0>>, <<6>>), S("conv", <<10>>, <<>>)>>),
    P(<<S("log", <<21>>, <<>>), S("buf", <<1>>, <<>>)>>),
    P(<<S("log", <<31>>, <<>>)>>),
    P(<<S("log", <<41>>, <<>>)>>),
    P(<<S("log", <<51>>, <<>>)>>),
    P(<<S("log", <<61>>, <<>>)>>)>>
VARIABLES w, h, out1, out2, last, fwd5
\* h: injected values; out1/out2: what pipes 1/2 should have forwarded while connected;
\* last: result of the last trigger; fwd5: when the rate limiter has forwarded an injected value
vars == <<w, h, out1, out2, last, fwd5>>
Init == /\ w = World(Net)
        /\ h = <<>>
        /\ out1 = <<>>
        /\ out2 = <<>>
        /\ last = <<FALSE, FALSE>>
        /\ fwd5 = <<>>
By(k, r) == LET f == SelectSeq(r, LAMBDA x : x[1] = k) IN [i \in 1..Len(f) |-> f[i][2]]
Got(k) == By(k, w.rec)
\* pipe 2 gets y
Out2(x, y) == out2' = IF x.fwd[2] = 3 THEN Append(out2, y) ELSE out2
Inject(x) == LET r == Inj(w, 1, x) IN
    /\ w' = r.w
    /\ h' = Append(h, x)
    /\ r.v = x + 10
    /\ out1' = IF w.fwd[1] = 2 THEN Append(out1, x + 10) ELSE out1
    /\ IF w.fwd[1] = 2 THEN Out2(w, x + 10) ELSE out2' = out2
    /\ last' = <<FALSE, FALSE>>
    /\ fwd5' = IF Len(By(51, r.w.rec)) > Len(Got(51)) THEN Append(fwd5, w.now) ELSE fwd5
Trig == LET r == Trg(w, 1) IN
    /\ w' = r.w
    /\ out1' = IF r.t /\ w.fwd[1] = 2 THEN Append(out1, r.v) ELSE out1
    /\ IF r.t /\ w.fwd[1] = 2 THEN Out2(w, r.v) ELSE out2' = out2
    /\ last' = <<last[2], r.t>>
    /\ UNCHANGED <<h, fwd5>>
Held(x) == Ext(x, 1).v
Con12 == /\ w' = Connect(w, 1, 2)
         /\ out1' = Append(out1, Held(w))
         /\ Out2(w, Held(w))
         /\ last' = <<FALSE, FALSE>>
         /\ UNCHANGED <<h, fwd5>>
Con23 == /\ w' = Connect(w, 2, 3)
         /\ out2' = Append(out2, Ext(w, 2).v)
         /\ last' = <<FALSE, FALSE>>
         /\ UNCHANGED <<h, out1, fwd5>>
Dis(p) == /\ w' = Disconnect(w, p)
          /\ last' = <<FALSE, FALSE>>
          /\ UNCHANGED <<h, out1, out2, fwd5>>
Tick == /\ w' = [w EXCEPT !.now = @ + 1]
        /\ last' = <<FALSE, FALSE>>
        /\ UNCHANGED <<h, out1, out2, fwd5>>
Extnd == /\ w.fwd[1] = 0
         /\ w' = Extend(w, 1, 2)
         /\ w'.fwd[2] = 0
         /\ out1' = Append(out1, Held(w))
         /\ last' = <<FALSE, FALSE>>
         /\ UNCHANGED <<h, out2, fwd5>>
Next == (\E x \in V : Inject(x)) \/ Trig \/ Con12 \/ Con23 \/ Dis(1) \/ Dis(2) \/ Tick \/ Extnd
Spec == Init /\ [][Next]_vars
Lim == TLCGet("level") <= Depth
LastOf(s, d) == IF s = <<>> THEN d ELSE s[Len(s)]
RECURSIVE Dedup(_, _)
Dedup(p, s) == IF s = <<>> THEN <<>> ELSE IF Head(s) = p THEN Dedup(p, Tail(s)) ELSE <<Head(s)>> \o Dedup(Head(s), Tail(s))
\* every segment is applied once per injected value, in order
Once == /\ Got(11) = h
        /\ Got(12) = h
        /\ LET f == SelectSeq(w.rec, LAMBDA x : x[1] \in {11, 12}) IN
           \A i \in 1..Len(f) : f[i][1] = 11 + (1 - (i % 2))
\* the connected pipe gets what comes out, once; a pipe that is connected gets the value that is held
Forwarded == Got(21) = out1 /\ Got(31) = out2
ChangesOnly == Got(41) = Dedup(0, h)
Rate == /\ \A i \in 2..Len(fwd5) : fwd5[i] - fwd5[i - 1] > Interval
        /\ w.st[1][4][2] = 0 => LastOf(Got(51), 0) = LastOf(h, 0)
        /\ \A i \in 1..Len(Got(51)) : \E j \in 1..Len(h) : h[j] = Got(51)[i]
        /\ w.st[1][4][3] < w.now => LET t == TrgSeg(w, 1, 4) IN LastOf(By(51, t.w.rec), 0) = LastOf(h, 0)
Triggers == /\ last # <<TRUE, TRUE>>
            /\ Len(Got(61)) <= Len(h)
Pure == \A p \in 1..Len(Net) : Ext(w, p).w = w /\ XFrom(w, p, 1, 1).w = w
================================================================================
