---------------------------- MODULE ComponentsTrace ----------------------------
(* Recorded evaluations of the real components, and changes of their objects, against Components. *)
EXTENDS TraceLib, Components
VARIABLES l, st, M, hw, f, rc, ph, pv
\* st: content per scope; M: internal state per component; hw: input pins; f: frequency in Hz;
\* rc, ph: parameters as set; pv: override of the output pin
vars == <<l, st, M, hw, f, rc, ph, pv>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
None == [x |-> 0]
Kind(c) == CASE c \in {"amp", "samp", "damp"} -> "amp" [] c \in {"pin", "spin"} -> "pin" [] c = "pout" -> "pout"
             [] c \in {"pid", "spid", "mpid"} -> "pid" [] c \in {"pulse", "spulse"} -> "pulse" [] c = "sine" -> "sine"
             [] c \in {"lowpass", "highpass", "slow"} -> "filter" [] OTHER -> "ramp"
NewM(c) == CASE Kind(c) = "pid" -> PidNew [] Kind(c) \in {"pulse", "sine"} -> PulseNew [] Kind(c) = "filter" -> FilterNew
             [] Kind(c) = "ramp" -> RampNew [] OTHER -> None
Init == l = 1 /\ st = None /\ M = None /\ hw = 0 /\ f = 1 /\ rc = None /\ ph = None /\ pv = -1
New == /\ Is("init") /\ st' = E.o /\ M' = [c \in DOMAIN E.o |-> NewM(c)] /\ hw' = 0 /\ f' = 1
       /\ rc' = [c \in DOMAIN E.o |-> 163] /\ ph' = [c \in DOMAIN E.o |-> 0] /\ pv' = -1
Same == UNCHANGED <<M, hw, f, pv>>
Set == /\ Is("set") /\ Same
       /\ LET raw == E.k \in {"cutoff_frequency__Hz_", "phase__rad_"} IN
          /\ st' = [st EXCEPT ![E.c] = [@ EXCEPT ![E.k] = IF raw THEN E.o[E.k] ELSE E.v]]
          /\ rc' = IF E.k = "cutoff_frequency__Hz_" THEN [rc EXCEPT ![E.c] = E.v] ELSE rc
          /\ ph' = IF E.k = "phase__rad_" THEN [ph EXCEPT ![E.c] = E.v] ELSE ph
       /\ E.o = st'[E.c]
Freq == Is("f") /\ f' = E.f /\ UNCHANGED <<st, M, hw, rc, ph, pv>>
Hw == Is("hw") /\ hw' = E.hw /\ UNCHANGED <<st, M, f, rc, ph, pv>>
HasEnable(c) == "enable" \in DOMAIN st[c]
Enable == /\ Is("enable") /\ Same /\ UNCHANGED <<rc, ph>>
          /\ st' = IF HasEnable(E.c) THEN [st EXCEPT ![E.c]["enable"] = E.v] ELSE st
          /\ E.q = (HasEnable(E.c) => E.v # 0) /\ E.o = st'[E.c]
Input == Is("input") /\ E.r = st["pin"]["input"] /\ UNCHANGED <<st, M, hw, f, rc, ph, pv>>
\* ---- evaluation
In(c, n) == IF E.has THEN E.in ELSE Get(st[c], n, 0)
S0(c, n) == IF E.has THEN Put(st[c], n, E.in) ELSE st[c]
Exact(c, r) == /\ E.r = r.r /\ E.o = r.s /\ st' = [st EXCEPT ![c] = r.s] /\ M' = [M EXCEPT ![c] = r.m]
RunAmp(c) == Exact(c, Amp(S0(c, "input"), In(c, "input"))) /\ UNCHANGED hw
RunPin(c) == hw' = E.hw /\ Exact(c, LET r == PinIn(st[c], E.hw) IN [r EXCEPT !.m = None])
Same2 == UNCHANGED <<f, rc, ph>>
RunPout(c) == /\ UNCHANGED hw
              /\ LET s == S0(c, "output") r == Pin(pv, s["output"]) IN
                 /\ E.o = s /\ st' = [st EXCEPT ![c] = s] /\ E.r = r /\ E.outs = <<r>> /\ UNCHANGED M
Ovr == /\ Is("ovr") /\ pv' = E.v /\ E.r = E.v /\ UNCHANGED <<st, M, hw, f, rc, ph>>
       /\ E.outs = <<Pin(E.v, st["pout"]["output"])>>
RunPid(c) == UNCHANGED hw /\ Exact(c, Pid(S0(c, "y"), M[c], f, In(c, "y")))
RunPulse(c) == UNCHANGED hw /\ Exact(c, Pulse(st[c], M[c], f, ph[c]))
RunRamp(c) == UNCHANGED hw /\ Exact(c, Ramp(S0(c, "input"), M[c], f, In(c, "input")))
Close(r, tol) == E.r >= r - tol /\ E.r <= r + tol
RunSine(c) == /\ UNCHANGED hw
              /\ LET r == Sine(st[c], M[c], f, ph[c]) s == Put(st[c], "output", E.r)
                 IN Close(r.c, r.tol) /\ E.o = s /\ st' = [st EXCEPT ![c] = s]
                    /\ M' = [M EXCEPT ![c] = Tick(M[c], Get(st[c], "frequency__Hz_", 163), f)]
RunFilter(c) == /\ UNCHANGED hw
                /\ LET low == c # "highpass"
                       s0 == S0(c, "input")
                       r == Filter(low, s0, M[c], f, rc[c], In(c, "input"))
                       s == Put(r.s, "output", E.r)
                   IN /\ r.any \/ Close(r.c, r.tol)
                      /\ E.o = s /\ st' = [st EXCEPT ![c] = s]
                      /\ M' = [M EXCEPT ![c] = IF Overridden(s0) \/ ~Enabled(s0) THEN r.m ELSE [r.m EXCEPT !.out = E.r]]
Run == /\ Is("run") /\ UNCHANGED <<f, rc, ph, pv>> /\ E.f = f
       /\ (Kind(E.c) # "pout" => E.outs = <<>>)
       /\ LET c == E.c IN
          CASE Kind(c) = "amp" -> RunAmp(c) [] Kind(c) = "pin" -> RunPin(c) [] Kind(c) = "pout" -> RunPout(c)
            [] Kind(c) = "pid" -> RunPid(c) [] Kind(c) = "pulse" -> RunPulse(c) [] Kind(c) = "sine" -> RunSine(c)
            [] Kind(c) = "filter" -> RunFilter(c) [] Kind(c) = "ramp" -> RunRamp(c)
\* numbers are small, so nothing gets stuck; the integral is not too large for an epsilon that is not there
\* limits that are to be applied at the next reset
Pending(c) == M[c].adt = 0 /\ (st[c]["speed_limit"] # Inf \/ st[c]["acceleration_limit"] # Inf)
Health == /\ Is("health") /\ E.spid /\ E.mpid /\ E.sine /\ E.pulse
          /\ (E.ramp \/ Pending("ramp")) /\ (E.sramp \/ Pending("sramp"))
          /\ (st["pid"]["epsilon"] = Inf => E.pid)
          /\ UNCHANGED <<st, M, hw, f, rc, ph, pv>>
Next == New \/ Set \/ Freq \/ Hw \/ Enable \/ Input \/ Ovr \/ Run \/ Health
Spec == Init /\ [][Next]_vars
================================================================================
