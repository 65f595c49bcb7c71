------------------------------- MODULE Components -------------------------------
(* What the control components compute from the content of their store objects (C24). A scope
   of a store is a function from names to values; names that are not in it are optional objects
   that are not there. Numbers are in units of 1/U. Each operator gives the next content of the
   scope (s), the next internal state (m) and the result (r). *)
EXTENDS Integers, Sequences, FiniteSets
U == 1024
Inf == 1073741823
NaN == 1073741824
Get(s, n, d) == IF n \in DOMAIN s THEN s[n] ELSE d
Put(s, n, v) == IF n \in DOMAIN s THEN [s EXCEPT ![n] = v] ELSE s
Mul(a, b) == (a * b) \div U
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a
Abs(a) == IF a < 0 THEN -a ELSE a
Enabled(s) == Get(s, "enable", 1) # 0
Overridden(s) == Get(s, "override", NaN) # NaN
Res(s, m, r) == [s |-> s, m |-> m, r |-> r]

\* ---- amplifier
Amp(s, in) ==
    LET lim(x) == Min2(Max2(Get(s, "low", -Inf), x), Get(s, "high", Inf))
        r == IF Overridden(s) THEN s["override"]
             ELSE IF ~Enabled(s) THEN lim(in)
             ELSE lim(Mul(in, Get(s, "gain", U)) + Get(s, "offset", 0))
    IN Res(Put(s, "output", r), <<>>, r)

\* ---- pins; the value that results from an override
Pin(ov, p) == CASE ov = 0 -> 0 [] ov = 1 -> 1 [] ov = 2 -> 1 - p [] OTHER -> p
PinIn(s, hw) == LET r == Pin(Get(s, "override", -1), hw) IN Res(Put(s, "input", r), <<>>, r)

\* ---- PID
PidNew == [first |-> TRUE, kn |-> 0, kd |-> 1, d |-> 0, y |-> 0, int |-> 0, u |-> 0]
PidReset(s, m, f, y) ==
    LET Ti == Get(s, "Ti__s_", Inf)
        ok == f > 0 /\ Ti # Inf /\ Ti # 0
    IN [m EXCEPT !.first = FALSE, !.y = y, !.int = Get(s, "int", m.int),
        !.kn = IF ok THEN s["Kp"] ELSE 0, !.kd = IF ok THEN f * Ti ELSE 1,
        !.d = IF f > 0 THEN -(Mul(s["Kp"], Get(s, "Td__s_", 0)) * f) ELSE 0]
Pid(s, m, f, y) ==
    IF Overridden(s) THEN Res(Put(s, "u", s["override"]), m, s["override"])
    ELSE IF ~Enabled(s) THEN Res(s, m, m.u)
    ELSE LET again == m.first \/ Get(s, "reset", 0) # 0
             m1 == IF again THEN PidReset(s, m, f, y) ELSE m
             s1 == Put(s, "reset", 0)
             sp == s["setpoint"]
             em == Get(s, "error_max", Inf)
             e == Max2(-em, Min2(em, sp - y))
             lo == Get(s, "low", -Inf)
             hi == Get(s, "high", Inf)
             u0 == Mul(s["Kp"], e) + m1.int + Mul(Get(s, "Kff", 0), sp)
             di == (m1.kn * e) \div m1.kd
             int == (u0 >= lo \/ di > 0) /\ (u0 <= hi \/ di < 0)    \* anti-windup
             i == IF int THEN Max2(Get(s, "int_low", -Inf), Min2(Get(s, "int_high", Inf), m1.int + di)) ELSE m1.int
             u1 == u0 + i - m1.int + Mul(m1.d, y - m1.y)
             u == Max2(lo, Min2(hi, u1))
         IN Res(Put(IF int THEN Put(s1, "int", i) ELSE s1, "u", u),
                [m1 EXCEPT !.int = i, !.u = u, !.y = IF m1.d # 0 THEN y ELSE m1.y], u)

\* ---- pulse wave; time t in 1/U s; ph: the phase in 1/32 of a period
PulseNew == [t |-> 0]
\* the time advances, also when disabled or overridden. Frequencies: f in 1/U Hz, sf in Hz
Period(f) == IF f > 0 THEN (U * U) \div f ELSE 0
Tick(m, f, sf) == IF Period(f) > 0 /\ sf > 0 THEN [m EXCEPT !.t = (m.t + (U \div sf)) % Period(f)] ELSE m
Pulse(s, m, sf, ph) ==
    LET f == Get(s, "frequency__Hz_", U)
        P == Period(f)
        \* 32 times the time in the period
        t == IF "phase__rad_" \notin DOMAIN s THEN 32 * m.t ELSE IF P = 0 THEN 0 ELSE ((32 * m.t) + (ph * P)) % (32 * P)
        r == IF Overridden(s) THEN s["override"]
             ELSE IF ~Enabled(s) THEN 0
             ELSE IF P > 0 /\ t < 32 * Mul(P, Get(s, "duty_cycle", U \div 2)) THEN Get(s, "amplitude", U) ELSE 0
    IN Res(Put(s, "output", r), Tick(m, f, sf), r)

\* ---- sine (in 1/32 of a period, approximated)
Quarter == <<0, 200, 392, 569, 724, 851, 946, 1004, 1024>>
Sin32(k) == LET q == k % 32 IN
    IF q <= 8 THEN Quarter[q + 1] ELSE IF q <= 16 THEN Quarter[17 - q] ELSE IF q <= 24 THEN -Quarter[q - 15] ELSE -Quarter[33 - q]
\* the allowed results
Sine(s, m, sf, ph) ==
    LET f == Get(s, "frequency__Hz_", 163)
        k == ((32 * ((f * m.t) \div U)) \div U) + ph
        A == Get(s, "amplitude", U)
    IN IF Overridden(s) THEN [c |-> s["override"], tol |-> 0]
       ELSE IF ~Enabled(s) THEN [c |-> Get(s, "offset", 0), tol |-> 0]
       ELSE [c |-> Mul(A, Sin32(k)) + Get(s, "offset", 0), tol |-> 2 + ((2 * Abs(A)) \div U)]

\* ---- first order filters; rc: the time constant in 1/U s
FilterNew == [an |-> -1, ad |-> 1, out |-> 0, in |-> 0, known |-> TRUE]
FilterAgain(s, m) == m.an < 0 \/ Get(s, "reset", 0) # 0
FilterCoef(lowpass, m, sf, rc) ==
    LET dt == IF sf > 0 THEN U \div sf ELSE 0
    IN IF lowpass THEN (IF dt > 0 THEN [m EXCEPT !.an = dt, !.ad = rc + dt] ELSE [m EXCEPT !.an = 1, !.ad = 1])
       ELSE (IF rc > 0 THEN [m EXCEPT !.an = rc, !.ad = rc + dt] ELSE [m EXCEPT !.an = 1, !.ad = 1])
\* the next state and the allowed result; with known = FALSE, any (a high pass filter that starts)
Filter(lowpass, s, m, sf, rc, in) ==
    IF Overridden(s) THEN [s |-> s, m |-> [m EXCEPT !.out = in, !.in = in], c |-> s["override"], tol |-> 0, any |-> FALSE]
    ELSE IF ~Enabled(s) THEN [s |-> s, m |-> [m EXCEPT !.out = in, !.in = in], c |-> in, tol |-> 0, any |-> FALSE]
    ELSE LET first == m.an < 0
             m0 == IF first THEN [m EXCEPT !.out = in] ELSE m
             m1 == IF FilterAgain(s, m) THEN FilterCoef(lowpass, m0, sf, rc) ELSE m0
             c == IF lowpass THEN ((m1.an * in) + ((m1.ad - m1.an) * m1.out)) \div m1.ad
                  ELSE (m1.an * ((m1.out + in) - m1.in)) \div m1.ad
         IN [s |-> Put(s, "reset", 0), m |-> [m1 EXCEPT !.in = in], c |-> c, tol |-> 2, any |-> first /\ ~lowpass]

\* ---- ramp. Speeds are counted in steps of a, positions in steps of adt (= a / sf).
RampNew == [adt |-> -1, v |-> 0, vmax |-> 0, x |-> 0, stop |-> 0, start |-> 0, pos |-> 0]
NoMax == 1000000
Round(n, d) == IF n < 0 THEN -(((2 * (0 - n)) + d) \div (2 * d)) ELSE ((2 * n) + d) \div (2 * d)
Lim(x) == IF x = NaN \/ x < 0 THEN 0 ELSE x
\* distance to stop
StopOf(v) == IF v < 0 THEN -((v * (v + 1)) \div 2) ELSE (v * (v - 1)) \div 2
RampReset(s, m, sf) ==
    LET sl == Lim(Get(s, "speed_limit", Inf))
        al == Lim(Get(s, "acceleration_limit", Inf))
        adt0 == IF al = Inf THEN Inf ELSE IF sf > 0 THEN al \div sf ELSE 0
        a0 == Min2(sl, adt0)
        steps == IF a0 = Inf \/ a0 <= 0 \/ sl = Inf THEN 1 ELSE Round(sl, a0)
        a == IF a0 = Inf \/ sf <= 0 THEN 0 ELSE IF sl = Inf THEN a0 ELSE sl \div steps
        adt == IF sf > 0 THEN a \div sf ELSE 0
        v == IF adt > 0 /\ m.adt > 0 THEN Round(m.v * m.adt, adt) ELSE 0
    IN [m EXCEPT !.adt = adt, !.v = v, !.vmax = IF adt <= 0 THEN 0 ELSE IF sl = Inf THEN NoMax ELSE Max2(1, steps),
        !.x = 0, !.stop = StopOf(v), !.start = m.pos]
\* towards a target above; [v, stop] after accelerating
Up(m) == IF m.v < m.vmax THEN (IF m.v >= 0 THEN [v |-> m.v + 1, stop |-> m.stop + m.v] ELSE [v |-> m.v + 1, stop |-> m.stop - (m.v + 1)])
         ELSE IF m.v > m.vmax THEN [v |-> m.v - 1, stop |-> m.stop - (m.v - 1)]   \* the limit was lowered
         ELSE [v |-> m.v, stop |-> m.stop]
Step(m, err) == \* err > 0
    LET a == Up(m) IN
    IF m.v > 0 /\ err < (a.stop + a.v + 1) * m.adt
    THEN IF err < (m.stop + m.v) * m.adt THEN [m EXCEPT !.v = @ - 1, !.stop = @ - (m.v - 1)] ELSE m
    ELSE [m EXCEPT !.v = a.v, !.stop = a.stop]
Neg(m) == [m EXCEPT !.v = -@, !.stop = -@]
RampStep(m, in) ==
    LET err == in - m.pos
    IN IF Abs(err) < m.adt /\ m.v \in -1..1 THEN [m EXCEPT !.x = 0, !.stop = 0, !.v = 0, !.start = in, !.pos = in]
       ELSE LET n == IF err > 0 THEN Step(m, err) ELSE Neg(Step(Neg(m), -err))
            IN [n EXCEPT !.x = @ + n.v, !.pos = m.start + ((m.x + n.v) * m.adt)]
Ramp(s, m, sf, in) ==
    IF Overridden(s) THEN Res(Put(s, "output", s["override"]), [m EXCEPT !.v = 0, !.stop = 0], s["override"])
    ELSE LET m1 == IF m.adt < 0 \/ Get(s, "reset", 0) # 0 THEN RampReset(s, m, sf) ELSE m
             m2 == IF m1.adt = 0 THEN [m1 EXCEPT !.pos = in]
                   ELSE IF ~Enabled(s) THEN LET v == Round(in - m1.pos, m1.adt) IN [m1 EXCEPT !.start = in, !.pos = in, !.v = v, !.x = 0, !.stop = StopOf(v)]
                   ELSE RampStep(m1, in)
         IN Res(Put(Put(s, "reset", 0), "output", m2.pos), m2, m2.pos)
================================================================================
