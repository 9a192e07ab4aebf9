-------------------------------- MODULE Fit ---------------------------------
(***************************************************************************)
(* Estimate of the synchronous bin from the reference profile: straight    *)
(* lines through four bins at both edges of the bunch give the bunch       *)
(* limits (feet of the tangents); the phase at which a bunch of that       *)
(* length starts is a zero of PhaseLow; the synchronous bin follows.       *)
(* Bins are numbered from 1 here; positions are those of the code (the     *)
(* centre of the first bin is 0.5).                                        *)
(***************************************************************************)
EXTENDS Num
FitPeak(p) == LET x == RMaxSeq(p) S == {k \in 1..Len(p) : REq(p[k], x)} IN CHOOSE k \in S : \A m \in S : k <= m
FitBelow(p) == LET t == RMul("0.15", RMaxSeq(p)) IN {k \in 1..Len(p) : RLt(p[k], t)}
\* Nearest bins below 15 % of the peak on either side (the very first bin is not looked at).
LeftBelow(p) == LET x == FitPeak(p) IN {k \in FitBelow(p) : 2 <= k /\ k < x}
RightBelow(p) == LET x == FitPeak(p) IN {k \in FitBelow(p) : k > x}
TanLow(p) == LET S == LeftBelow(p) IN (CHOOSE k \in S : \A m \in S : m <= k) + 1
TanUp(p) == LET S == RightBelow(p) IN (CHOOSE k \in S : \A m \in S : m >= k) - 1
\* The fit is defined when both edges and their four bins lie inside the profile.
FitDomain(p) == /\ Len(p) >= 5 /\ RLt("0", RMaxSeq(p)) /\ LeftBelow(p) # {} /\ RightBelow(p) # {}
                /\ TanUp(p) + 2 <= Len(p) /\ TanLow(p) - 2 >= 1 /\ TanLow(p) + 1 <= Len(p) /\ TanUp(p) - 1 >= 1
\* zero of the least squares line through bins a..a+3 (centres a-1+0.5 ...)
Slope5(p, a) == RSum(<<RMul("-1.5", p[a]), RMul("-0.5", p[a+1]), RMul("0.5", p[a+2]), RMul("1.5", p[a+3])>>)
LineFoot(p, a) == RSub(RAdd(a, "1.0"), RDiv(RMul("1.25", RSum(SubSeq(p, a, a + 3))), Slope5(p, a)))
FootLow(p) == LineFoot(p, TanLow(p) - 2)
FootUp(p) == LineFoot(p, TanUp(p) - 1)
\* RF potential difference over a bunch of length len [rad] starting at phase ph.
Volt(m, ph) == RAdd(RMul(m.v1, RSin(ph)), RMul(m.v2, RSin(RMul(m.hr, RSub(ph, m.phi12)))))
PhaseLow(m, ph, len) ==
  LET e == RAdd(ph, len)
  IN RSum(<<RMul(m.v1, RSub(RCos(e), RCos(ph))),
            RDiv(RMul(m.v2, RSub(RCos(RMul(m.hr, RSub(e, m.phi12))), RCos(RMul(m.hr, RSub(ph, m.phi12))))), m.hr),
            RMul(len, Volt(m, m.phi0))>>)
PhaseLowSlope(m, ph, len) == RSub(Volt(m, ph), Volt(m, RAdd(ph, len)))
RECURSIVE Newton(_, _, _, _)
Newton(m, ph, len, k) == IF k = 0 THEN ph ELSE Newton(m, RSub(ph, RDiv(PhaseLow(m, ph, len), PhaseLowSlope(m, ph, len))), len, k - 1)
\* A bunch of this length fits: Newton's method from the symmetric position settles.
PhaseFound(m, len) == LET x == Newton(m, RSub(m.phi0, RDiv(len, 2)), len, 40) y == Newton(m, x, len, 1) IN RFinite(y) /\ RClose(x, y, "1e-7")
RadPerBin(m) == RMul(RMul(m.h, m.omega), m.dt)
=============================================================================
