----------------------------- MODULE T_Machine -----------------------------
(* Conformance of recorded turn programmes: a record carries the machine m  *)
(* and the arrays time, e0, beta, phi0, eta, drift, omega, v1, v2, dE0.     *)
EXTENDS TraceLoop, Physics
V1At(m, t) == RAdd(m.v1, RMul(m.v1dot, t))
V2At(m, t) == RAdd(m.v2, RMul(m.v2dot, t))
\* 1-based position of turn n
NT(T) == T.m.dt * (T.m.np - 1)
I0(T) == T.m.ref * T.m.dt + 1
Lens(T) == LET n == NT(T) + 1 IN \A f \in {"time", "e0", "beta", "phi0", "eta", "drift", "omega", "v1", "v2", "dE0"} :
              Len(T[f]) = n
Diff(T, k) == RSub(T.e0[k], T.e0[k-1])
Gain(T, k) == RMul(T.m.q, VRF(T.phi0[k], V1At(T.m, T.time[k]), V2At(T.m, T.time[k]), T.m.h, T.m.phi12))
\* rounding of e0, in units of energy
Ulp(T) == RMul("1e-15", T.e0[1])
GainDoc(T) == /\ REq(T.dE0[1], 0)
              /\ \A k \in 2..NT(T)+1 : RClose(T.dE0[k], Diff(T, k), Ulp(T))
\* What the code does below the reference turn (known finding).
GainShifted(T) == /\ T.m.ref > 0 /\ REq(T.dE0[I0(T)], 0)
                  /\ \A k \in 1..I0(T)-1 : RClose(T.dE0[k], Diff(T, k + 1), Ulp(T))
                  /\ \A k \in I0(T)+1..NT(T)+1 : RClose(T.dE0[k], Diff(T, k), Ulp(T))
MachineClauses(T) == LET m == T.m  K == 1..NT(T)+1  i0 == I0(T) IN <<
  <<Lens(T), "one value per turn">>,
  <<REq(T.time[i0], 0), "time origin is the reference turn">>,
  <<RNear(T.e0[i0], EnergyOfField(m, m.b0), "1e-12", 0), "energy at the reference turn">>,
  <<\A k \in 2..NT(T)+1 : RNear(RSub(T.time[k], T.time[k-1]), RevPeriod(m, T.beta[k-1]),
                                "1e-9", RMul("1e-14", RAbs(T.time[k]))), "turn duration">>,
  <<\A k \in K : Synchronous(m, T.phi0[k], V1At(m, T.time[k]), V2At(m, T.time[k]), m.phi12, m.bdot),
    "synchronous phase">>,
  <<StableSide(m, T.e0[i0], T.phi0[i0], m.v1, m.v2, m.phi12), "stable side of the voltage">>,
  <<\A k \in 2..NT(T)+1 : RClose(RSub(T.e0[k], T.e0[k-1]), Gain(T, k), Ulp(T)), "energy gain of a turn">>,
  <<\A k \in K : RNear(T.beta[k], Beta(m, T.e0[k]), "1e-12", 0), "beta">>,
  <<\A k \in K : RNear(T.eta[k], Eta(m, T.beta[k]), "1e-12", "1e-15"), "phase slip factor">>,
  <<\A k \in K : RNear(T.drift[k], DriftCoef(m, T.e0[k], T.beta[k], T.eta[k]), "1e-12", 0), "drift coefficient">>,
  <<\A k \in K : RNear(T.omega[k], OmegaRev(m, T.beta[k]), "1e-12", 0), "revolution frequency">>,
  <<\A k \in K : RNear(T.v1[k], V1At(m, T.time[k]), "1e-12", "1e-12"), "first harmonic voltage">>,
  <<\A k \in K : RNear(T.v2[k], V2At(m, T.time[k]), "1e-12", "1e-12"), "second harmonic voltage">>,
  <<REq(T.spy, RDiv(T.nbins, 2)), "synchronous energy row">>,
  <<T.again, "recomputing the programme changes it">>,
  <<GainDoc(T) \/ GainShifted(T), "synchronous energy gain">> >>
Fn(T) == LET m == T.m  v == VRF(T.phi, T.v1, T.v2, m.h, T.phi12)
             dv == DVRF(T.phi, T.v1, T.v2, m.h, T.phi12)
             nr(x, y) == RNear(x, y, "1e-11", RMul("1e-11", RAdd(VoltScale(T.v1, T.v2, m.h), RAbs(RampVoltage(m, T.bdot))))) IN <<
  <<nr(T.rf_voltage_at_phase, v), "rf_voltage_at_phase">>,
  <<nr(T.rf_voltage, RSub(v, RampVoltage(m, T.bdot))), "rf_voltage">>,
  <<nr(T.drf_voltage, dv), "drf_voltage">>,
  <<nr(T.rfvolt_rf1, RSub(RMul(T.v1, RSin(T.phi)), RampVoltage(m, T.bdot))), "rfvolt_rf1">>,
  <<nr(T.drfvolt_rf1, RMul(T.v1, RCos(T.phi))), "drfvolt_rf1">>,
  <<nr(T.vrft, RAdd(T.v1, RMul(T.v2, T.t))), "vrft">>,
  <<nr(T.phase_low, PhaseLow(T.phi, T.L, T.v1, T.v2, m.h, T.phi12, T.vs)), "phase_low">>,
  <<nr(T.dphase_low, DPhaseLow(T.phi, T.L, T.v1, T.v2, m.h, T.phi12)), "dphase_low">> >>
MachineVerdicts(T) ==
  IF T.kind = "fn" THEN {FirstBad(Fn(T), "physics functions")}
  ELSE IF T.outcome # "ok" THEN
    {IF T.solvable THEN "bad:machine rejected" ELSE "skip:no synchronous phase"}
  ELSE {FirstBad(MachineClauses(T), IF T.m.ref > 0 THEN "programme, later reference" ELSE "programme")}
       \cup (IF Lens(T) /\ ~GainDoc(T) /\ GainShifted(T) THEN {"known:deltaE0-below-reference"} ELSE {})
=============================================================================
