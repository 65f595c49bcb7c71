-------------------------------- MODULE SignalMC --------------------------------
(* Independence of keys and tokens, for all short histories. *)
EXTENDS Signal, FiniteSets
CONSTANTS Keys, Tokens, MaxOps
VARIABLES cs, n, hist
vars == <<cs, n, hist>>
Init == cs = <<>> /\ n = 0 /\ hist = <<>>
Do(o, c) == cs' = c /\ n' = n + 1 /\ hist' = Append(hist, o)
Next == n < MaxOps /\
    \/ \E k \in Keys \cup {0}, t \in Tokens : Do([o |-> "conn", k |-> k, t |-> t], Connect(cs, k, t, n + 1))
    \/ Do([o |-> "all", k |-> 0, t |-> 0], Disconnect(cs, "all", 0, 0))
    \/ \E k \in Keys : Do([o |-> "key", k |-> k, t |-> 0], Disconnect(cs, "key", k, 0))
    \/ \E k \in Keys, t \in Tokens : Do([o |-> "tok", k |-> k, t |-> t], Disconnect(cs, "tok", k, t))
Spec == Init /\ [][Next]_vars
\* Connection i of the history is called for k exactly when nothing afterwards disconnected it.
Removes(h, c) == \/ h.o = "all" \/ (h.o = "key" /\ c.k = h.k) \/ (h.o = "tok" /\ c.k = h.k /\ c.t = h.t)
Expect(k) == {i \in 1..Len(hist) : hist[i].o = "conn" /\ (k = 0 \/ hist[i].k = k) /\ \A j \in i+1..Len(hist) : ~Removes(hist[j], hist[i])}
Exact == \A k \in Keys \cup {0} : LET c == Called(cs, k) IN Len(c) = Cardinality(Expect(k)) /\ {c[i].id : i \in 1..Len(c)} = Expect(k)
================================================================================
