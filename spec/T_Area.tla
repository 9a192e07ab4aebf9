------------------------------- MODULE T_Area -------------------------------
(* Conformance of recorded reconstruction areas.                            *)
EXTENDS TraceLoop, Area
\* Range of the upper limit of a column edge, given rounding of the height.
EdgeLo(m, hgt, dE) == RInt(RFloor(RAdd(m.spy, RMax(0, RSub(RDiv(hgt, dE), "1e-6")))))
EdgeHi(m, hgt, dE) == RInt(RFloor(RAdd(m.spy, RAdd(RDiv(hgt, dE), "1e-6"))))
Upper(m, low, up, dE, E(_, _, _)) ==
  LET a == Force([k \in 1..m.nb+1 |-> Min2(E(m, low[k], dE), E(m, up[k], dE))])
  IN Force([k \in 1..m.nb |-> Min2(m.nb, Min2(a[k], a[k+1]))])
LoBin(m) == RInt(RDiv(m.mindt, m.dtbin))
HiBin(m) == RInt(RCeil(RDiv(m.maxdt, m.dtbin)))
SameArea(A, T) == A.ok /\ A.imin = T.imin /\ A.imax = T.imax
Clauses(T, m, xo, dE, lowS, uppS) ==
  LET L(jx) == Limits(m.nb, IF m.full THEN FullMax(m.nb) ELSE jx, LoBin(m), HiBin(m), m.full)
      B == L(lowS)  C == L(uppS)
  IN IF T.outcome # "ok" THEN
       <<<<T.error \in {"EnergyLimitsError", "PhaseLimitsError", "EnergyBinningError"}, "wrong error for an empty area">>,
         <<~(B.ok /\ C.ok), "area rejected">> >>
     ELSE <<
       <<RNear(T.xorigin, xo, "1e-9", "1e-9"), "origin of the phase axis">>,
       <<RNear(T.dEbin, dE, "1e-9", 0), "energy height of a cell">>,
       <<Len(T.jmin) = m.nb /\ Len(T.jmax) = m.nb, "one energy limit per column">>,
       <<B.ok \/ C.ok, "empty or broken area accepted">>,
       <<SameArea(B, T) \/ SameArea(C, T), "phase limits">>,
       <<\A k \in 1..m.nb : Min2(B.jmax[k], C.jmax[k]) <= T.jmax[k] /\ T.jmax[k] <= Max2(B.jmax[k], C.jmax[k]),
         "upper energy limit">>,
       <<\A k \in 1..m.nb : (T.jmax[k] = B.jmax[k] /\ T.jmin[k] = B.jmin[k])
                         \/ (T.jmax[k] = C.jmax[k] /\ T.jmin[k] = C.jmin[k]), "lower energy limit">>,
       <<0 <= T.imin /\ T.imin <= T.imax /\ T.imax < m.nb, "area leaves the image">> >>
AreaVerdicts(T) ==
  LET m == T.m
      xo == XOrigin(T.beam, m.hn, m.dtbin, m.spx)
      dE == EnergyBin(m, T.beam, xo)
  IN IF REq(m.demax, 0) THEN
       {FirstBad(<< <<T.outcome # "ok" /\ T.error = "EnergyBinningError", "zero energy range accepted">> >>, "zero range rejected")}
     ELSE IF ~RFinite(dE) \/ ~RLt(0, dE) THEN
       {FirstBad(<< <<T.outcome # "ok", "cells without energy height accepted">> >>, "no energy height, rejected")}
     ELSE LET low == Heights(m, T.film, xo, 0)
              up == Heights(m, T.film, xo, m.nb)
          IN {FirstBad(Clauses(T, m, xo, dE, Upper(m, low, up, dE, EdgeLo), Upper(m, low, up, dE, EdgeHi)),
                IF T.outcome # "ok" THEN "empty area rejected"
                ELSE IF m.full THEN "full image"
                ELSE IF T.imin = LoBin(m) \/ T.imax = HiBin(m) - 1 THEN "area cut by the user" ELSE "area")}
=============================================================================
