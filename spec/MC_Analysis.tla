---------------------------- MODULE MC_Analysis -----------------------------
(* All small images, a handful of machines and all small clippings: the     *)
(* figures behave as figures of a distribution should.                      *)
EXTENDS Analysis, Integers, FiniteSets, TLC, Json
CONSTANTS Levels, Fractions, Spans
VARIABLES k, d, m, len, hs, pts
vars == <<k, d, m, len, hs, pts>>
N == 2
Machines == {[phi0 |-> "0.1", e0 |-> "1.2e9", eta |-> "0.6", omega |-> "6.0e6", h |-> 1, q |-> 1, v |-> "8000.0", rest |-> "9.38e8"],
             [phi0 |-> "3.141592653589793", e0 |-> "9.0e9", eta |-> "-0.02", omega |-> "3.0e6", h |-> 4, q |-> 1, v |-> "5000.0", rest |-> "9.38e8"],
             [phi0 |-> "2.9", e0 |-> "9.0e9", eta |-> "-0.02", omega |-> "3.0e6", h |-> 2, q |-> 2, v |-> "5000.0", rest |-> "3.7e9"]}
NoM == CHOOSE x \in Machines : TRUE
Heights == {"0.0", "0.7", "1.5"}
Points == [x : 0..2, y : 0..4]
Total == \A i \in 1..N : \A j \in 1..N : d[i][j] = 0
Init == \/ /\ k = "image" /\ d \in [1..N -> [1..N -> Levels]] /\ ~Total
           /\ m = NoM /\ len = "1.0" /\ hs = <<>> /\ pts = <<>>
        \/ /\ k = "contour" /\ m \in Machines /\ len \in Spans /\ d = <<>> /\ hs = <<>> /\ pts = <<>>
        \/ /\ k = "clip" /\ hs \in [1..3 -> Heights] /\ pts \in [1..2 -> Points] /\ d = <<>> /\ m = NoM /\ len = "1.0"
Next == (k = "image" => PrintT(<<"@G", ToJson([d |-> d])>>)) /\ UNCHANGED vars
Spec == Init /\ [][Next]_vars
Norm == LET s == RSum([i \in 1..N |-> RSum(d[i])]) IN [i \in 1..N |-> RDivS(d[i], s)]
Turned == [i \in 1..N |-> [j \in 1..N |-> Norm[j][i]]]
Flip == [i \in 1..N |-> [j \in 1..N |-> Norm[N + 1 - i][j]]]
Eq(x, y) == RNear(x, y, "1e-9", "1e-12")
Mo(x) == MomentsOf(x, "0.5", "3.0")
Transposed == k = "image" => LET a == Mo(Norm) b == Mo(Turned) IN Eq(a.det, b.det) /\ Eq(a.vx, b.vy) /\ Eq(a.vy, b.vx)
Mirrored == k = "image" => LET a == Mo(Norm) b == Mo(Flip) IN Eq(a.det, b.det) /\ Eq(a.vx, b.vx) /\ Eq(RAdd(a.mt, b.mt), RMul(N - 1, "0.5"))
Definite == k = "image" => LET a == Mo(Norm) IN RLe("-1e-12", a.det) /\ RLe("-1e-12", a.vx) /\ RLe("-1e-12", a.vy)
Growing == k = "image" => \A f, g \in Fractions : RLe(f, g) => RLe(DensityEmit(Norm, 1, 1, f), DensityEmit(Norm, 1, 1, g))
Bounded == k = "image" => \A f \in Fractions : RLe("0.0", DensityEmit(Norm, 1, 1, f)) /\ RLe(DensityEmit(Norm, 1, 1, f), N * N - 1)
\* contours
Closed == k = "contour" => LET l == MatchedLeft(m, len) IN
            /\ RLe(l, m.phi0) /\ RLe(m.phi0, RAdd(l, len))
            /\ RClose(Potential(m, l), Potential(m, RAdd(l, len)), "1e-6")
            /\ \A j \in 1..9 : RLe(Potential(m, l), RAdd(Potential(m, RAdd(l, RMul(len, RDiv(j, 10)))), "1e-6"))
AreaGrows == k = "contour" => RLt(MatchedArea(m, RMul(len, "0.9"), 60), MatchedArea(m, len, 60))
\* a short bunch is an ellipse: area ~ pi/4 * length * 2 height
Elliptic == k = "contour" /\ RLe(len, "0.2") => LET l == MatchedLeft(m, len) u == Potential(m, l) IN
   RNear(MatchedArea(m, len, 200), RDiv(RMul(RMul(RDiv(Pi, 2), len), Height(m, m.phi0, u)), RMul(m.h, m.omega)), "1e-2", "0")
\* clipping: two particles of weights 1 and 3 on energies -2..2
Es == <<"-2.0", "-1.0", "0.0", "1.0", "2.0">>
W == <<"1.0", "3.0">>
X == [i \in 1..2 |-> pts[i].x]
Y == [i \in 1..2 |-> pts[i].y]
Some == \E i \in 1..2 : ~Dropped(hs, Es, X[i], Y[i])
Kept == k = "clip" /\ Some => LET c == Clipped(hs, Es, X, Y, W) IN
   /\ Eq(RSum(c), "4.0") /\ \A i \in 1..2 : RLe("0.0", c[i])
   /\ Clipped(hs, Es, X, Y, c) = c
   /\ \A i \in 1..2 : Dropped(hs, Es, X[i], Y[i]) => REq(c[i], "0.0")
\* the rows next to the middle go when the column has no height
Flat0 == k = "clip" => \A i \in 1..2 : (X[i] < 2 /\ REq(hs[X[i] + 1], "0.0")) => Dropped(hs, Es, X[i], Y[i])
=============================================================================
