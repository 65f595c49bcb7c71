--------------------------------- MODULE Poller ---------------------------------
(* Which events a poller has to report, for resources in some state.

   A resource r is a record: k is its kind, n the amount of data in it (or full), open
   tells if the other end is still there.
     a  reading end of a pipe    b  writing end of a pipe   z, l  ZeroMQ socket, layer
     c  callback, which gives cb, or throws when x          e, E  special: nothing / fails *)
EXTENDS Naturals, FiniteSets
Pend(r) == CASE r.k = "a" -> (IF r.n > 0 THEN {"I"} ELSE {}) \union (IF r.open THEN {} ELSE {"H"})
             [] r.k = "b" -> (IF r.n = 0 THEN {"O"} ELSE {}) \union (IF r.open THEN {} ELSE {"E"})
             [] r.k \in {"z", "l"} -> {"O"} \union (IF r.n > 0 THEN {"I"} ELSE {})
             [] r.k = "c" -> IF r.x THEN {"E"} ELSE r.cb
             [] OTHER -> {}
\* pollables that a backend b can handle
Accepts(b, t) == CASE b = "poll" -> t \in {"fd", "fl"}
                   [] b = "zmq" -> t \in {"fd", "fl", "zs", "zl"}
                   [] OTHER -> TRUE
\* requested events are reported, and errors and hang ups anyway
Report(b, t, req, r) ==
    CASE b = "poll" -> (req \intersect Pend(r) \intersect {"I", "O", "P"}) \union (Pend(r) \intersect {"E", "H"})
      [] b = "zmq" /\ t \in {"fd", "fl"} -> (req \intersect Pend(r) \intersect {"I", "O"}) \union (IF Pend(r) \intersect {"E", "H"} # {} THEN {"E"} ELSE {})
      [] b = "zmq" -> req \intersect Pend(r)
      [] OTHER -> Pend(r)
\* polling itself fails
Fails(b, t, r) == IF b # "loop" THEN {} ELSE IF t = "cb" THEN {} ELSE IF r.k = "e" THEN {} ELSE IF r.k = "E" THEN {"EIO"} ELSE {"EINVAL"}
================================================================================
