------------------------------- MODULE MC_Fit -------------------------------
(* All small bunches: moving a profile by whole bins moves its limits, and  *)
(* scaling it changes nothing.                                              *)
EXTENDS Fit, Integers, TLC, Json
CONSTANTS Width, Levels, Pad
VARIABLES b
Init == b \in [1..Width -> Levels]
Next == (FitDomain([k \in 1..Width + 2*Pad |-> IF k > Pad /\ k <= Pad + Width THEN b[k - Pad] ELSE 0]) /\
         PrintT(<<"@G", ToJson([p |-> b])>>)) /\ UNCHANGED b
Spec == Init /\ [][Next]_b
At(s, f) == [k \in 1..Width + 2*Pad |-> IF k > Pad + s /\ k <= Pad + s + Width THEN f * b[k - Pad - s] ELSE 0]
Steep(p) == RLt("1e-9", RAbs(Slope5(p, TanLow(p) - 2))) /\ RLt("1e-9", RAbs(Slope5(p, TanUp(p) - 1)))
Same(x, y) == RNear(x, y, "1e-9", "1e-9")
Moves == \A s \in {0 - 1, 0, 1} : \A f \in {1, 3} : LET p == At(0, 1) q == At(s, f) IN
   (FitDomain(p) /\ FitDomain(q) /\ Steep(p)) => Same(FootLow(q), RAdd(FootLow(p), s)) /\ Same(FootUp(q), RAdd(FootUp(p), s))
Mirrored == LET p == At(0, 1) n == Len(p) q == [k \in 1..n |-> p[n + 1 - k]] IN
   (FitDomain(p) /\ FitDomain(q) /\ Steep(p) /\ (\A i, j \in 1..n : i # j /\ p[i] = p[j] => RLt(p[i], RMaxSeq(p))))
      => TanUp(q) = n + 1 - TanLow(p) /\ TanLow(q) = n + 1 - TanUp(p)
=============================================================================
