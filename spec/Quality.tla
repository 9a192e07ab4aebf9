------------------------------ MODULE Quality -------------------------------
(***************************************************************************)
(* Beam-quality figures of a density image d[time][energy] with equally    *)
(* spaced axes t and e.                                                    *)
(***************************************************************************)
EXTENDS Num
Pi == "3.141592653589793"
ProjT(d) == [i \in 1..Len(d) |-> RSum(d[i])]
ProjE(d) == [j \in 1..Len(d[1]) |-> RSum([i \in 1..Len(d) |-> d[i][j]])]
Width(b) == RSub(b[2], b[1])
Mid(b) == LET w == RDiv(Width(b), 2) IN [k \in 1..Len(b) |-> RAdd(b[k], w)]
\* Standard deviation of a histogram over its bins.
Mean(h, b) == RDiv(RSum(RMulV(h, Mid(b))), RSum(h))
Sigma(h, b) == LET mu == Mean(h, b) m == Mid(b) IN
   RSqrt(RDiv(RSum([k \in 1..Len(h) |-> RMul(h[k], RMul(RSub(m[k], mu), RSub(m[k], mu)))]), RSum(h)))
\* The known deviation: every bin's own share of the mean is subtracted instead of the mean.
SigmaOwnShare(h, b) == LET H == RSum(h) m == Mid(b) IN
   RSqrt(RDiv(RSum([k \in 1..Len(h) |-> LET x == RSub(m[k], RDiv(RMul(m[k], h[k]), H)) IN RMul(h[k], RMul(x, x))]), H))
EmitRms(st, se) == RMul(Pi, RMul(st, se))
Momentum(en, mass) == RSqrt(RSub(RMul(en, en), RMul(mass, mass)))
Dpp(se, en, mass) == LET p == Momentum(en, mass) IN RDiv(RSub(Momentum(RAdd(en, se), mass), p), p)
\* Fractional emittance: area of the densest cells that together hold less than the fraction.
Flat(d) == FoldLeft(LAMBDA a, r : a \o r, <<>>, d)
Sorted(d) == SortSeq(Flat(d), LAMBDA x, y : RLt(y, x))
RECURSIVE CumUntil(_, _, _, _)
CumUntil(s, k, acc, lim) == IF k > Len(s) THEN 0      \* never reached
   ELSE LET a == RAdd(acc, s[k]) IN IF RLe(lim, a) THEN k - 1 ELSE CumUntil(s, k + 1, a, lim)
Cells(d, frac) == LET s == Sorted(d) IN CumUntil(s, 1, "0.0", RMul(RDiv(frac, "100.0"), RSum(s)))
CellArea(t, e) == RMul(Width(t), Width(e))
EmitFrac(d, t, e, frac) == RMul(Cells(d, frac), CellArea(t, e))
=============================================================================
