--------------------------------- MODULE RampMC ---------------------------------
(* The ramp of Components: from any (sequence of) targets, the limits are respected and the
   target is reached, without going beyond it when coming from rest. *)
EXTENDS Components
CONSTANTS VMax, Range, Fine, Changes, Resets
VARIABLES m, in, n, rest, prev, over
vars == <<m, in, n, rest, prev, over>>
Adt == 2     \* positions are in half steps, targets may be in between
Start == [RampNew EXCEPT !.adt = Adt, !.vmax = VMax]
Targets == {t \in -(Range * Adt)..(Range * Adt) : Fine \/ t % Adt = 0}
Init == m = Start /\ in = 0 /\ n = 0 /\ rest = TRUE /\ prev = 0 /\ over = FALSE
Run == /\ m' = RampStep(m, in) /\ prev' = m.v
       /\ UNCHANGED <<in, n, rest>>
       /\ over' = (over \/ (rest /\ ((m.pos <= in /\ m'.pos > in) \/ (m.pos >= in /\ m'.pos < in))))
Change == n < Changes /\ \E t \in Targets : in' = t /\ n' = n + 1 /\ rest' = (m.v = 0) /\ over' = FALSE /\ UNCHANGED <<m, prev>>
\* new parameters while running (at the same scale of speeds)
Reset == /\ Resets /\ n < Changes /\ n' = n + 1
         /\ \E w \in 1..VMax : m' = [m EXCEPT !.vmax = w, !.x = 0, !.stop = StopOf(m.v), !.start = m.pos]
         /\ UNCHANGED <<in, prev, rest, over>>
Next == Run \/ Change \/ Reset
Spec == Init /\ [][Next]_vars /\ WF_vars(Run)
SpeedOk == Abs(m.v) <= VMax
AccOk == Abs(m.v - prev) <= 1
NoOvershoot == ~over
\* too fast after a reset: never faster, and slower whenever there is a way to go
NotFaster == [][Abs(m.v) > m.vmax /\ m'.v # 0 /\ UNCHANGED n => Abs(m'.v) <= Abs(m.v)]_vars
SlowsDown == [][Abs(m.v) > m.vmax /\ UNCHANGED <<n, in>> /\ Abs(in - m.pos) > (Abs(m.stop) + Abs(m.v) + 1) * Adt => Abs(m'.v) < Abs(m.v)]_vars
Arrives == <>[](m.pos = in /\ m.v = 0)
================================================================================
