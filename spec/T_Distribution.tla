--------------------------- MODULE T_Distribution ---------------------------
(* The start distribution: s x s particles at the same offsets in every     *)
(* cell of the area, once each (grid numbers g = s*x - 1/2 are integers).   *)
EXTENDS TraceLoop, Physics, Functions
GridX(T, k) == RSub(RMul(T.s, RSub(RDiv(RAdd(T.dphi[k], T.phi0), RMul(RMul(T.hn, T.omega), T.dtbin)), T.xorigin)), "0.5")
GridY(T, k) == RSub(RMul(T.s, RAdd(RDiv(T.de[k], T.dEbin), T.spy)), "0.5")
Near(x) == RInt(RFloor(RAdd(x, "0.5")))
OnGrid(x, T) == RClose(x, Near(x), T.tol)
Cells(T) == LET n == T.imax - T.imin + 1 IN
  FoldLeft(LAMBDA a, i : a + (IF T.jmax[i+1] > T.jmin[i+1] THEN T.jmax[i+1] - T.jmin[i+1] ELSE 0), 0,
           [k \in 1..n |-> T.imin + k - 1])
InArea(T, gx, gy) == LET i == gx \div T.s  j == gy \div T.s IN
  /\ gx >= 0 /\ gy >= 0 /\ T.imin <= i /\ i <= T.imax /\ T.jmin[i+1] <= j /\ j < T.jmax[i+1]
Clauses(T) == LET n == Len(T.dphi) gx == [k \in 1..n |-> GridX(T, k)] \o <<>>  gy == [k \in 1..n |-> GridY(T, k)] \o <<>> IN <<
  <<Len(T.de) = n, "as many energies as phases">>,
  <<n = T.s * T.s * Cells(T), "number of particles">>,
  <<\A k \in 1..n : OnGrid(gx[k], T) /\ OnGrid(gy[k], T), "place within the cell">>,
  <<\A k \in 1..n : InArea(T, Near(gx[k]), Near(gy[k])), "particle outside the area">>,
  <<Cardinality({<<Near(gx[k]), Near(gy[k])>> : k \in 1..n}) = n, "two particles at one place">>,
  <<T.sameArea, "limits differ from those of the area">>,
  <<REq(T.mdEbin, T.dEbin), "energy height not stored on the machine">> >>
DistVerdicts(T) == IF T.outcome # "ok"
  THEN {IF T.areaOk THEN "bad:distribution rejected" ELSE "ok:no area, rejected"}
  ELSE IF ~T.areaOk THEN {"bad:distribution without an area"}
  ELSE {FirstBad(Clauses(T), "distribution")}
=============================================================================
