----------------------------- MODULE T_Analysis -----------------------------
EXTENDS TraceLoop, Analysis
MomentsV(T) ==
  LET n == Len(T.d) w == MomentsOf(T.d, T.dt, T.dE)
      var == RMul("1e-9", n * n) cell == RMul(T.dt, T.dE)
      Sq(x, unit) == LET y == RDiv(x, unit) IN RMul(y, y)
  IN {FirstBad(<<
        <<T.outcome = "ok", "moments are computed">>,
        <<RNear(T.res[2], w.mt, "1e-9", RMul("1e-9", T.dt)), "mean time">>,
        <<RLe(w.vx, var) \/ RClose(Sq(T.res[3], T.dt), w.vx, var), "rms time">>,
        <<RNear(T.res[4], w.me, "1e-9", RMul(RMul("1e-9", n), T.dE)), "mean energy">>,
        <<RLe(w.vy, var) \/ RClose(Sq(T.res[5], T.dE), w.vy, var), "rms energy">>,
        <<RLe(w.det, RMul(var, n * n)) \/ RClose(Sq(RDiv(T.res[1], Pi), cell), w.det, RMul(var, n * n)), "rms emittance">> >>, "moments")}
DensityV(T) ==
  IF ~(RLt("0", T.f) /\ RLt(T.f, "1")) THEN
    {FirstBad(<<<<T.outcome = "error" /\ "ValueError" \in ToSet(T.mro), "fraction refused">>>>, "fraction refused")}
  ELSE LET want == DensityEmit(T.d, T.dt, T.dE, T.f) cell == RMul(T.dt, T.dE)
       IN {FirstBad(<<<<T.outcome = "ok", "emittance is computed">>,
                      <<RNear(T.res, want, "1e-7", RMul("1e-7", cell)), "density emittance">>,
                      <<T.after = T.d, "given image unchanged">>>>, "density emittance")}
TangentV(T) ==
  LET y == T.y mx == RMaxSeq(y)
      tie == \E i \in 1..Len(y) : RClose(y[i], RMul("0.15", mx), RMul("1e-8", mx))
  IN IF tie THEN {"trivial:sample at the threshold"}
     ELSE IF ~TangentsDefined(y) THEN
       {FirstBad(<<<<T.outcome = "error" /\ "InvalidProfileError" \in ToSet(T.mro), "profile too long is refused">>>>, "profile too long")}
     ELSE LET lo == TangentLow(T.x, y) up == TangentUp(T.x, y) len == RSub(up, lo)
              dx == RSub(T.x[2], T.x[1]) fuzz == RMul("1e-6", RMul(Len(y), dx))
              wild == ~RFinite(len) \/ RLt(RMul(RMul(100, Len(y)), dx), RAbs(len))
          IN IF wild \/ RClose(len, "0", fuzz) \/ RClose(len, T.trf, fuzz) THEN {"trivial:length at a limit"}
             ELSE IF RLt(len, "0") \/ RLe(T.trf, len) THEN
               {FirstBad(<<<<T.outcome = "error" /\ "InvalidProfileError" \in ToSet(T.mro), "length beyond a period is refused">>>>, "length refused")}
             ELSE {FirstBad(<<<<T.outcome = "ok", "tangents are computed">>,
                              <<RClose(T.res[1], lo, fuzz), "lower foot">>, <<RClose(T.res[2], up, fuzz), "upper foot">>>>, "tangents")}
Steep(y, a) == RLt(RMul("1e-5", RMaxSeq(y)), RAbs(RSum(<<RMul("-3", y[a]), RNeg(y[a+1]), y[a+2], RMul("3", y[a+3])>>)))
TieAt(y, lvl) == \E i \in 1..Len(y) : RClose(y[i], RMul(lvl, RMaxSeq(y)), RMul("1e-8", RMaxSeq(y)))
FootV(T) ==
  LET y == T.y lvl == "0.15" IN
  IF TieAt(y, lvl) THEN {"trivial:sample at the threshold"}
  ELSE IF ~(FootLeftDefined(y, lvl) /\ FootRightDefined(y, lvl)) THEN {"trivial:feet outside the profile"}
  ELSE IF ~(Steep(y, LastLeft(y, lvl) - 1) /\ Steep(y, FirstRight(y, lvl) - 2)) THEN {"trivial:flat edge"}
  ELSE {FirstBad(<<
     <<T.outcome = "ok", "feet are computed">>,
     <<T.after = T.y, "given profile unchanged">>,
     <<RNear(T.res[1], RMul(FootLeft(y, lvl), T.dx), "1e-6", RMul("1e-6", T.dx)), "left foot">>,
     <<RNear(T.res[2], RMul(FootRight(y, lvl), T.dx), "1e-6", RMul("1e-6", T.dx)), "right foot">>,
     <<RNear(T.mirror[1], RSub(RMul(T.dx, Len(y) - 1), T.res[2]), "1e-6", RMul("1e-6", T.dx)) \/ T.flat, "feet of the mirrored profile">> >>, "feet")}
FootDensityV(T) ==
  LET mn == RNeg(RMaxSeq([k \in 1..Len(T.y) |-> RNeg(T.y[k])]))
      y == [k \in 1..Len(T.y) |-> RSub(T.y[k], mn)] lvl == T.level IN
  IF RLe(lvl, "0") \/ RLe("1", lvl) THEN {FirstBad(<<<<T.outcome = "error" /\ "ValueError" \in ToSet(T.mro), "level outside 0..1 is refused">>>>, "level refused")}
  ELSE IF REq(RMaxSeq(y), "0") \/ TieAt(y, lvl) THEN {"trivial:sample at the threshold"}
  ELSE IF ~FootRightDefined(y, lvl) THEN {"trivial:feet outside the profile"}
  ELSE IF ~Steep(y, FirstRight(y, lvl) - 2) THEN {"trivial:flat edge"}
  ELSE {FirstBad(<<
     <<T.outcome = "ok", "density is computed">>,
     <<RNear(T.res, ValueAt(T.x, FootRight(y, lvl)), "1e-6", RMul("1e-6", RMaxSeq([k \in 1..Len(T.x) |-> RAbs(T.x[k])]))), "density at the foot">>>>, "density at the foot")}
\* uncertainty of the potential: the code interpolates it on 1000 phases
DU(m) == RMul("1.5e-5", m.v)
MatchedV(T) ==
  LET m == T.m len == RMul(T.bl, RMul(m.omega, m.h))
      l == MatchedLeft(m, len) u == Potential(m, l) low == Lowest(m)
      inside == RLt(RAdd(low, RMul("0.02", RAbs(low))), u)
  IN IF ~inside THEN {"trivial:bunch longer than the bucket"}
     ELSE {FirstBad(<<<<T.outcome = "ok", "area is computed">>,
                      <<RNear(T.res, MatchedArea(m, len, 300), "1e-3", "0"), "matched area">>>>, "matched area")}
Level(T, k) == RMul(RDiv(k - 1, T.n - 1), RMin(Potential(T.m, RSub(T.m.phi0, Pi)), Potential(T.m, RAdd(T.m.phi0, Pi))))
InBucket(T, u) == LET low == Lowest(T.m) IN RLe(low, RAdd(u, RMul("1e-9", RAbs(low))))
ContourK(T, ph, k) ==
  LET m == T.m u == Level(T, k) du == DU(m) K == HeightFactor(m)
      hs == Columns(m, ph, u) lo == Columns(m, ph, RAdd(u, du)) hi == Columns(m, ph, RSub(u, du))
      C == 1..Len(ph)
      edge == \E i \in C : RLt("0", hi[i]) /\ REq(lo[i], "0.0")
      tot == RSum([i \in C |-> RSum(T.d[i])])
      S(v) == RDiv(RSum([i \in C |-> IF RLt("0", v[i]) THEN Inside(T.e, T.d[i], v[i]) ELSE "0.0"]), tot)
      on == SelectSeq([i \in C |-> i], LAMBDA i : RLt("0", hs[i]))
      up == [j \in 1..Len(on) |-> InterpAt(T.e, T.d[on[j]], hs[on[j]])]
      dn == [j \in 1..Len(on) |-> InterpAt(T.e, T.d[on[j]], RNeg(hs[on[j]]))]
      big == RMaxSeq([i \in C |-> RMaxSeq(T.d[i])])
      w == RSub(T.e[2], T.e[1])
      tol == IF on = <<>> THEN "0.0" ELSE RMul(big, RAdd("1e-9", RDiv(RMaxSeq([j \in 1..Len(on) |-> RSub(hi[on[j]], lo[on[j]])]), w)))
      mean == RDiv(RSum([j \in 1..Len(on) |-> RDiv(RAdd(up[j], dn[j]), 2)]), Len(on))
      most == RMax(RMaxSeq(up), RMaxSeq(dn))
      least == RNeg(RMax(RMaxSeq([j \in 1..Len(up) |-> RNeg(up[j])]), RMaxSeq([j \in 1..Len(dn) |-> RNeg(dn[j])])))
  IN IF ~InBucket(T, RSub(u, du)) THEN "trivial:contour not closed"
     ELSE FirstBad(<<
       <<RLe(RMul("0.999999", ColArea(m, ph, lo)), T.emit[k]) /\ RLe(T.emit[k], RMul("1.000001", ColArea(m, ph, hi))), "area of the contour">>,
       <<RLe(RSub(S(lo), "1e-9"), T.sum[k]) /\ RLe(T.sum[k], RAdd(S(hi), "1e-9")), "share inside the contour">>,
       <<(edge \/ on = <<>> \/ k = 1) \/ RClose(T.local[k], mean, tol), "mean density on the contour">>,
       <<(edge \/ on = <<>> \/ k = 1) \/ RClose(T.lmax[k], most, tol), "largest density on the contour">>,
       <<(edge \/ on = <<>> \/ k = 1) \/ RClose(T.lmin[k], least, tol), "smallest density on the contour">> >>,
       IF edge \/ on = <<>> THEN "contour area" ELSE "contour")
FirstPoint(T) ==
  LET slope == RDiv(RSub(T.local[3], T.local[2]), RSub(T.emit[3], T.emit[2]))
      x == RSub(T.local[2], RMul(slope, T.emit[2]))
  IN IF ~REq(T.emit[1], "0.0") \/ ~RFinite(x) THEN "trivial:first contour"
     ELSE FirstBad(<<<<RNear(T.local[1], x, "1e-7", RMul("1e-9", RAbs(T.local[2]))) /\ T.lmin[1] = T.local[1] /\ T.lmax[1] = T.local[1],
                       "extrapolated central density">>>>, "extrapolated central density")
ContourV(T) ==
  IF T.outcome # "ok" THEN {"bad:contours are computed"}
  ELSE LET ph == ColPhase(T.m, T.t, T.x0) IN {ContourK(T, ph, k) : k \in 1..T.n} \cup {FirstPoint(T)}
ClipV(T) ==
  LET m == T.m ph == ColPhase(m, T.t, T.x0) du == DU(m) K == HeightFactor(m)
      Area(k, s) == ColArea(m, ph, Columns(m, ph, RAdd(Level(T, k), s)))
      Same(k) == \A i \in 1..Len(ph) : RClose(RMul(T.hs[i], T.hs[i]),
                    LET x == Height2(m, ph[i], Level(T, k)) IN IF RLt("0", x) THEN x ELSE "0.0", RMul(K, RMul("2", du)))
      \* the first contour of at least the wanted area: k must, k - 1 must not reach it
      Fits(k) == /\ RLe(T.target, Area(k, RNeg(du))) \/ k = T.n
                 /\ k > 1 => RLt(Area(k - 1, du), T.target)
      Sane == \A k \in 1..T.n : Fits(k) => InBucket(T, RSub(Level(T, k), du))
      near == \E i \in 1..Len(T.xs) : \E k \in 1..Len(T.hs) - 1 : /\ ~REq(T.hs[k], "0.0") /\ k - 1 <= T.xs[i] /\ T.xs[i] <= k
                 /\ LET w == RSub(T.e[2], T.e[1]) IN
                    \/ RClose(RDiv(RSub(T.hs[k], T.e[1]), w), T.ys[i], "1e-7")
                    \/ RClose(RDiv(RSub(RNeg(T.hs[k]), T.e[1]), w), T.ys[i], "1e-7")
      w == Clipped(T.hs, T.e, T.xs, T.ys, T.w)
      nothing == \A i \in 1..Len(T.xs) : REq(T.w[i], "0.0") \/ Dropped(T.hs, T.e, T.xs[i], T.ys[i])
      \* lowest and highest particle kept in each column
      In(k) == {i \in 1..Len(T.xs) : /\ k - 1 <= T.xs[i] /\ T.xs[i] <= k
                  /\ LET v == RSub(T.e[2], T.e[1]) IN
                     RLt(T.ys[i], RDiv(RSub(T.hs[k], T.e[1]), v)) /\ RLt(RDiv(RSub(RNeg(T.hs[k]), T.e[1]), v), T.ys[i])}
      Cols == SelectSeq([k \in 1..Len(T.hs) - 1 |-> k], LAMBDA k : In(k) # {})
      MinY(S) == CHOOSE y \in {T.ys[i] : i \in S} : \A i \in S : y <= T.ys[i]
      MaxY(S) == CHOOSE y \in {T.ys[i] : i \in S} : \A i \in S : y >= T.ys[i]
      FirstOf(S) == CHOOSE i \in S : \A j \in S : i <= j
      AtY(S, y) == FirstOf({i \in S : T.ys[i] = y}) - 1
      Extremes == FoldLeft(LAMBDA a, k : a \o (IF Cardinality(In(k)) = 1 THEN <<FirstOf(In(k)) - 1>>
                                               ELSE <<AtY(In(k), MinY(In(k))), AtY(In(k), MaxY(In(k)))>>), <<>>, Cols)
  IN IF ~Sane THEN {"trivial:contour not closed"}
     ELSE IF T.outcome # "ok" THEN {"bad:weights are clipped"}
     ELSE {FirstBad(<<
        <<\E k \in 1..T.n : Fits(k) /\ Same(k), "contour of the wanted area">>,
        <<T.after = T.w, "given weights unchanged">>,
        <<near \/ nothing \/ (\A i \in 1..Len(w) : RNear(T.res[i], w[i], "1e-9", "0")), "clipped weights">>,
        <<nothing \/ RNear(RSum(T.res), RSum(T.w), "1e-9", "0"), "total weight">>,
        <<near \/ T.idx = Extremes, "outermost particles">> >>, IF near \/ nothing THEN "contour" ELSE "clipping")}
AnVerdicts(T) == CASE T.kind = "moments" -> MomentsV(T) [] T.kind = "density" -> DensityV(T) [] T.kind = "tangent" -> TangentV(T)
                   [] T.kind = "matched" -> MatchedV(T) [] T.kind = "contours" -> ContourV(T) [] T.kind = "clip" -> ClipV(T)
                   [] T.kind = "foot" -> FootV(T) [] T.kind = "footdensity" -> FootDensityV(T)
=============================================================================
