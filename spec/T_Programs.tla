---------------------------- MODULE T_Programs -----------------------------
(* Conformance of recorded programme-driven machines.                       *)
EXTENDS TraceLoop, Programs
NTp(T) == T.m.dt * T.m.np
IRef(T) == T.m.ref * T.m.dt + 1
FNAMES == {"time", "e0", "beta", "phi0", "eta", "drift", "omega", "v1", "v2", "bdot", "mom"}
LensP(T) == \A f \in FNAMES : Len(T[f]) = NTp(T)
\* enough turns of the cycle to reach the end of the window
Cycle(T) == TurnsUpTo(T.m, T.mt, T.mp, T.upto)
Phi12At(T, t, k) ==
  IF T.phase = "const" THEN T.p12
  ELSE IF T.phase \in {"own axis", "voltage axis"} THEN Sample(T.pt, T.p1, t)
  ELSE IF T.phase = "programme" THEN
     Phi12OfPhases(Sample(T.pt, T.p1, t), IF T.nh = 2 THEN Sample(T.pt, T.p2, t) ELSE "0.0", T.m.h)
  ELSE Phi12OfRamp(T.m, T.bdot[k], T.v1[k], T.mode)
DocGain(T) == /\ Len(T.dE0) = NTp(T)
              /\ \A k \in 2..NTp(T) : RClose(T.dE0[k], RSub(T.e0[k], T.e0[k-1]), RMul("1e-15", T.e0[1]))
\* What the code stores (known finding): one turn too early, one entry short.
EarlyGain(T) == /\ Len(T.dE0) = NTp(T) - 1
                /\ \A k \in 1..NTp(T)-1 : RClose(T.dE0[k], RSub(T.e0[k+1], T.e0[k]), RMul("1e-15", T.e0[1]))
Clauses(T) == LET m == T.m  K == 1..NTp(T)  cyc == Cycle(T)  s == WindowStart(cyc, T.tref, IRef(T) - 1)
                  U(k) == cyc[s + k - 1]  i0 == IRef(T) IN <<
  <<s >= 1 /\ s + NTp(T) - 1 <= T.upto, "harness window">>,
  <<\A k \in K : RNear(T.mom[k], U(k).p, "1e-9", 0), "momentum at the turns">>,
  <<\A k \in K : RNear(T.e0[k], EnergyOfP(m, T.mom[k]), "1e-12", 0), "energy">>,
  <<\A k \in K : RNear(T.beta[k], BetaOfP(m, T.mom[k]), "1e-12", 0), "beta">>,
  <<\A k \in K : RNear(T.eta[k], Eta(m, T.beta[k]), "1e-11", "1e-14"), "phase slip factor">>,
  <<\A k \in K : RNear(T.drift[k], DriftCoef(m, T.e0[k], T.beta[k], T.eta[k]), "1e-12", 0), "drift coefficient">>,
  <<\A k \in K : RNear(T.omega[k], OmegaRev(m, T.beta[k]), "1e-12", 0), "revolution frequency">>,
  <<REq(T.time[i0], 0), "time origin is the reference turn">>,
  <<\A k \in 2..NTp(T) : RNear(RSub(T.time[k], T.time[k-1]), RevPeriod(m, T.beta[k]), "1e-9", "1e-18"), "turn duration">>,
  <<\A k \in K : RNear(T.v1[k], Sample(T.vt, T.va, U(k).t), "1e-8", "1e-8"), "first harmonic voltage">>,
  <<\A k \in K : RNear(T.v2[k], IF T.nh = 2 THEN Sample(T.vt, T.vb, U(k).t) ELSE "0.0", "1e-8", "1e-8"), "second harmonic voltage">>,
  <<REq(T.hr, m.h), "harmonic ratio">>,
  <<\A k \in K : LET B == [j \in K |-> FieldOfP(m, T.mom[j])] IN
      RNear(T.bdot[k], Gradient(B, T.time, k), "1e-7", RMul("1e-14", RDiv(RAbs(B[k]), RevPeriod(m, T.beta[k])))), "field ramp">>,
  <<T.nophi \/ \A k \in K : RNear(T.phi12[k], Phi12At(T, U(k).t, k), "1e-7", "1e-7"), "phase between the harmonics">>,
  <<T.nophi \/ \A k \in K : Synchronous(m, T.phi0[k], T.v1[k], T.v2[k], T.phi12[k], T.bdot[k]), "synchronous phase">>,
  <<T.nophi \/ StableSide(m, T.e0[i0], T.phi0[i0], T.v1[i0], T.v2[i0], T.phi12[i0]), "stable side of the voltage">>,
  <<T.refused, "synchronous phase without the phase between the harmonics">>,
  <<T.kept, "programmes of the caller changed">>,
  <<DocGain(T) \/ EarlyGain(T), "synchronous energy gain">> >>
\* The reference turn is the first one not before the reference time.
TieV(T) == LET n == Len(T.base) IN FirstBad(<<
  <<n > T.i0 + T.j, "window at a reference time between turns">>,
  <<Len(T.got) = n, "window at a reference time that is a turn">>,
  <<\A k \in 1..(n - T.j) : REq(T.got[k], T.base[k + T.j]), "a turn at the reference time is the reference turn">> >>, "reference time at a turn")
ProgVerdicts(T) ==
  IF T.kind = "tie" THEN {TieV(T)} ELSE IF T.kind = "refuse" THEN {FirstBad(<<<<T.outcome = "error" /\ \E j \in 1..Len(T.bases) : T.bases[j] = T.expect, T.what>>>>, "refused")}
  ELSE IF T.outcome # "ok" THEN {"bad:machine rejected"}
  ELSE IF ~LensP(T) THEN {"bad:one value per turn of the window"}
  ELSE {FirstBad(Clauses(T), "programmes, phase " \o T.phase)}
       \cup (IF ~DocGain(T) /\ EarlyGain(T) THEN {"known:programs-deltaE0-early"} ELSE {})
=============================================================================
