------------------------------ MODULE SelfField ------------------------------
(***************************************************************************)
(* Self-field voltages of a set of profiles.                               *)
(***************************************************************************)
EXTENDS Physics, SequencesExt
\* Derivative of the degree-4 least-squares polynomial through 7 consecutive
\* samples, at each of the 7 positions, times 2772 (Savitzky-Golay).
SG == << <<-4420, 5059, 1504, -2394, -1378, 2375, -746>>,
         <<-1144, -275, 748, 924, 176, -649, 220>>,
         <<158, -1619, -50, 1218, 764, -607, 136>>,
         <<242, -737, -638, 0, 638, 737, -242>>,
         <<-136, 607, -764, -1218, 50, 1619, -158>>,
         <<-220, 649, -176, -924, -748, 275, 1144>>,
         <<746, -2375, 1378, 2394, -1504, -5059, 4420>> >>
SmoothDerivative(v) == [k \in 1..Len(v) |->
   LET lo == IF k <= 4 THEN 1 ELSE IF k >= Len(v) - 3 THEN Len(v) - 6 ELSE k - 3
   IN RDiv(RSum([m \in 1..7 |-> RMul(SG[k - lo + 1][m], v[lo + m - 1])]), 2772)]
Filtered(wf) == [i \in 1..Len(wf) |-> SmoothDerivative(RDivS(wf[i], RSum(wf[i])))]
\* Voltage between profile i and i+1 in bin j; zero beyond the measured bins.
SelfVolt(charge, sfc, ds, i, j) ==
  IF j > Len(ds[i]) THEN "0.0"
  ELSE RMul(RMul("0.5", charge), RAdd(RMul(sfc[i], ds[i][j]), RMul(sfc[i + 1], ds[i + 1][j])))
\* Tracking with self-fields.  m is a record of the programme: cell[t] phase of a
\* bin, phi0, phi12, dE0, drift, v1, v2 at turn t (1-based), v the self-fields,
\* phiwrap whole RF periods covering the profile, xorigin, sy, dEbin.
NearInt(x) == RClose(x, RFloor(RAdd(x, "0.5")), "1e-7")
Kick(m, ph, t) == RSub(RAdd(RMul(m.v1[t], RSin(RAdd(ph, m.phi0[t]))),
    RMul(m.v2[t], RSin(RMul(m.m.h, RSub(RAdd(ph, m.phi0[t]), m.phi12[t]))))), m.dE0[t])
Energy(m, y) == RMul(RSub(y, m.sy), m.dEbin)
\* phase, relative to the synchronous particle, of a bin coordinate at a turn, and
\* the bin coordinate of a phase, which is taken modulo whole RF periods
PhaseAt(m, x, t) == RSub(RMul(RAdd(x, m.xorigin), m.cell[t]), m.phi0[t])
BinAt(m, ph, t) == LET w == RSub(RAdd(ph, m.phi0[t]), RMul(m.xorigin, m.cell[t]))
                   IN RDiv(RSub(w, RMul(m.phiwrap, RFloor(RDiv(w, m.phiwrap)))), m.cell[t])
\* Self-field between profiles k and k + 1 (1-based) in a bin; none beyond the measured bins.
FieldIn(m, k, b) == IF b \in 0..(Len(m.v[k]) - 1) THEN m.v[k][b + 1] ELSE "0.0"
\* One turn up from turn entry t, and one down to it; the field is that of the
\* bin of the particle less back, and counts sign times.  unsure: the particle
\* was too close to a border of bins to tell its bin.
UpTurn(m, k, back, s, t) ==
  LET ph == RSub(s.ph, RMul(m.drift[t], s.e))
      x == BinAt(m, ph, t + 1)
  IN [ph |-> ph, e |-> RAdd(RAdd(s.e, Kick(m, ph, t + 1)), RMul(m.m.q, FieldIn(m, k, RInt(x) - back))),
      unsure |-> s.unsure \/ NearInt(x)]
DownTurn(m, k, sign, s, t) ==
  LET x == BinAt(m, s.ph, t + 1)
      e == RAdd(RSub(s.e, Kick(m, s.ph, t + 1)), RMul(RMul(sign, m.m.q), FieldIn(m, k, RInt(x))))
  IN [ph |-> RAdd(s.ph, RMul(m.drift[t], e)), e |-> e, unsure |-> s.unsure \/ NearInt(x)]
=============================================================================
