------------------------------ MODULE Analysis ------------------------------
(***************************************************************************)
(* Phase-space analysis of a reconstructed image: moments, density         *)
(* emittance, tangents of a profile, contours of the single-harmonic RF    *)
(* potential (matched area, density along contours, clipping of weights).  *)
(* Images are square, d[time][energy], bins counted from 0 outside.        *)
(***************************************************************************)
EXTENDS Quality
Moment(d, F(_, _)) == RSum([i \in 1..Len(d) |-> RSum([k \in 1..Len(d) |-> RMul(d[i][k], F(i - 1, k - 1))])])
\* [emittance, mean t, rms t, mean E, rms E] of a normalised image, with every cell dt x dE
MomentsOf(d, dt, dE) ==
  LET x == Moment(d, LAMBDA a, b : a) y == Moment(d, LAMBDA a, b : b)
      vx == RSub(Moment(d, LAMBDA a, b : a * a), RMul(x, x))
      vy == RSub(Moment(d, LAMBDA a, b : b * b), RMul(y, y))
      cxy == RSub(Moment(d, LAMBDA a, b : a * b), RMul(x, y))
  IN [det |-> RSub(RMul(vx, vy), RMul(cxy, cxy)), vx |-> vx, vy |-> vy,
      mt |-> RMul(x, dt), me |-> RMul(RSub(y, RDiv(Len(d), 2)), dE)]
\* Emittance holding a fraction f of a normalised image: the densest cells first, the
\* k-th cell (counted from 0) completing an area of k cells, linear in between.
RECURSIVE AreaOf(_, _, _, _)
AreaOf(s, k, acc, f) ==     \* s sorted; acc = sum of the first k cells
  IF k >= Len(s) THEN Len(s) - 1
  ELSE LET a == RAdd(acc, s[k + 1]) IN
       IF RLt(f, a) THEN (IF k = 0 THEN 0 ELSE RAdd(k - 1, RDiv(RSub(f, acc), s[k + 1])))
       ELSE AreaOf(s, k + 1, a, f)
DensityEmit(d, dt, dE, f) == RMul(AreaOf(Sorted(d), 0, "0.0", f), RMul(dt, dE))
\* Tangents: lines through six points at the outermost samples of at least 15 % of the peak.
Above(y) == {k \in 1..Len(y) : RLe(RMul("0.15", RMaxSeq(y)), y[k])}
LeftIdx(y) == CHOOSE k \in Above(y) : \A m \in Above(y) : k <= m
RightIdx(y) == CHOOSE k \in Above(y) : \A m \in Above(y) : k >= m
Line(x, y) ==                \* zero of the least-squares line
  LET n == Len(x) mx == RDiv(RSum(x), n) my == RDiv(RSum(y), n)
      sl == RDiv(RSum([k \in 1..n |-> RMul(RSub(x[k], mx), RSub(y[k], my))]),
                 RSum([k \in 1..n |-> RMul(RSub(x[k], mx), RSub(x[k], mx))]))
  IN RSub(mx, RDiv(my, sl))
TangentsDefined(y) == LeftIdx(y) - 3 >= 1 /\ RightIdx(y) + 3 <= Len(y)
TangentLow(x, y) == LET l == LeftIdx(y) IN Line(SubSeq(x, l - 3, l + 2), SubSeq(y, l - 3, l + 2))
TangentUp(x, y) == LET r == RightIdx(y) IN Line(SubSeq(x, r - 2, r + 3), SubSeq(y, r - 2, r + 3))
\* Feet: lines through four points at the samples below lvl of the peak next to it
\* (positions count samples from 0).
LeftOf(y, lvl) == LET mx == RMaxSeq(y) p == CHOOSE k \in 1..Len(y) : REq(y[k], mx) /\ \A j \in 1..(k - 1) : ~REq(y[j], mx)
                  IN [peak |-> p, left |-> {k \in 1..(p - 1) : RLt(y[k], RMul(lvl, mx))},
                      right |-> {k \in (p + 1)..Len(y) : RLt(y[k], RMul(lvl, mx))}]
LastLeft(y, lvl) == LET s == LeftOf(y, lvl).left IN CHOOSE k \in s : \A j \in s : j <= k
FirstRight(y, lvl) == LET s == LeftOf(y, lvl).right IN CHOOSE k \in s : \A j \in s : k <= j
Window(y, a) == Line([k \in 1..4 |-> a + k - 2], SubSeq(y, a, a + 3))
FootLeftDefined(y, lvl) == LeftOf(y, lvl).left # {} /\ LastLeft(y, lvl) >= 2
FootRightDefined(y, lvl) == LeftOf(y, lvl).right # {} /\ FirstRight(y, lvl) + 1 <= Len(y) /\ FirstRight(y, lvl) >= 3
FootLeft(y, lvl) == Window(y, LastLeft(y, lvl) - 1)
FootRight(y, lvl) == Window(y, FirstRight(y, lvl) - 2)
\* the value of x at position p between its samples, its end values outside
ValueAt(x, p) == IF RLe(p, "0") THEN x[1] ELSE IF RLe(Len(x) - 1, p) THEN x[Len(x)]
                 ELSE LET i == CHOOSE k \in 1..(Len(x) - 1) : RLe(k - 1, p) /\ RLt(p, k)
                      IN RAdd(x[i], RMul(RSub(p, i - 1), RSub(x[i + 1], x[i])))
\* Contours.  m = [phi0, e0, eta, omega, h, q, v, rest].  The potential is 0 at the
\* synchronous phase and negative around it.
Orient(m, x) == IF RLt(m.eta, "0") THEN x ELSE RNeg(x)
Potential(m, p) == Orient(m, RMul(m.v, RAdd(RSub(RCos(m.phi0), RCos(p)), RMul(RSub(m.phi0, p), RSin(m.phi0)))))
\* energy offset squared at phase p on the contour at potential u
HeightFactor(m) == LET g == RDiv(m.e0, m.rest) IN
   RAbs(RDiv(RMul(RMul(m.q, RSub(g, RDiv(1, g))), m.rest), RMul(RMul(Pi, m.h), m.eta)))
Height2(m, p, u) == RMul(HeightFactor(m), RSub(Potential(m, p), u))
Height(m, p, u) == LET x == Height2(m, p, u) IN IF RLt("0", x) THEN RSqrt(x) ELSE "0.0"
RECURSIVE Bisect(_, _, _, _)
Bisect(F(_), a, b, n) ==     \* F(a) <= 0 <= F(b)
  LET c == RDiv(RAdd(a, b), 2) IN IF n = 0 THEN c
  ELSE IF RLt(F(c), "0") THEN Bisect(F, c, b, n - 1) ELSE Bisect(F, a, c, n - 1)
\* left end of the contour spanning len radian
MatchedLeft(m, len) == Bisect(LAMBDA l : RSub(Potential(m, l), Potential(m, RAdd(l, len))), RSub(m.phi0, len), m.phi0, 60)
PhaseGrid(a, b, n) == [k \in 1..n |-> RAdd(a, RDiv(RMul(k - 1, RSub(b, a)), n - 1))]
Trapz(v, dx) == RMul(dx, RSub(RSum(v), RDiv(RAdd(v[1], v[Len(v)]), 2)))
\* ends of the phases the contours are looked for
Lowest(m) == RMax(Potential(m, RSub(m.phi0, Pi)), Potential(m, RAdd(m.phi0, Pi)))
\* phi = mid - half * cos(theta) removes the square-root ends from the integral
MatchedArea(m, len, n) ==
  LET l == MatchedLeft(m, len) u == Potential(m, l) half == RDiv(len, 2)
      th == PhaseGrid("0.0", Pi, n)
      v == [k \in 1..n |-> RMul(Height(m, RSub(RAdd(l, half), RMul(half, RCos(th[k]))), u), RMul(half, RSin(th[k])))]
  IN RMul(RDiv("2.0", RMul(m.h, m.omega)), Trapz(v, RDiv(Pi, n - 1)))
\* Phases of the columns of an image: column k - 1 at times t[k], synchronous bin x0.
ColPhase(m, t, x0) == LET s == RMul(x0, RSub(t[2], t[1])) IN
   [k \in 1..Len(t) |-> RAdd(RMul(RSub(t[k], s), RMul(m.h, m.omega)), m.phi0)]
Columns(m, ph, u) == [k \in 1..Len(ph) |-> Height(m, ph[k], u)]
ColArea(m, ph, hs) == RMul(RDiv("2.0", RMul(m.h, m.omega)), Trapz(hs, RSub(ph[2], ph[1])))
\* Linear interpolation of a column of the image over the energies e at x, inside e.
InterpAt(e, v, x) ==
  LET k == CHOOSE k \in 1..Len(e) - 1 : RLe(e[k], x) /\ (RLt(x, e[k + 1]) \/ k = Len(e) - 1)
      w == RDiv(RSub(x, e[k]), RSub(e[k + 1], e[k]))
  IN RAdd(v[k], RMul(w, RSub(v[k + 1], v[k])))
\* integral of the interpolated column between -h and h, in energy bins
Inside(e, v, h) ==
  LET J == {k \in 1..Len(e) : RLt(RNeg(h), e[k]) /\ RLt(e[k], h)}
      a == CHOOSE k \in J : \A j \in J : k <= j
      b == CHOOSE k \in J : \A j \in J : k >= j
      w == RSub(e[2], e[1])
  IN RSum(<<Trapz(SubSeq(v, a, b), 1),
            RMul(RDiv(RSub(h, e[b]), w), RDiv(RAdd(v[b], InterpAt(e, v, h)), 2)),
            RMul(RDiv(RAdd(e[a], h), w), RDiv(RAdd(v[a], InterpAt(e, v, RNeg(h))), 2))>>)
\* Weights kept by a contour: particles at (x, y) in image coordinates; column k - 1 holds
\* x in [k-1, k] (both included), and what is not strictly inside its heights is dropped.
Dropped(hs, e, x, y) == \E k \in 1..Len(hs) - 1 :
   /\ k - 1 <= x /\ x <= k
   /\ LET w == RSub(e[2], e[1]) IN
      RLe(RDiv(RSub(hs[k], e[1]), w), y) \/ RLe(y, RDiv(RSub(RNeg(hs[k]), e[1]), w))
Clipped(hs, e, xs, ys, w) ==
  LET raw == [k \in 1..Len(w) |-> IF Dropped(hs, e, xs[k], ys[k]) THEN "0.0" ELSE w[k]]
  IN RMulS(raw, RDiv(RSum(w), RSum(raw)))
=============================================================================
