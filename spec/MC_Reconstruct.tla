--------------------------- MODULE MC_Reconstruct ---------------------------
(* Every reconstruction of the small scope: all trajectories of NPart       *)
(* particles through NProf profiles of NBin bins, all waterfalls with       *)
(* samples in Samples, NIter iterations.                                    *)
EXTENDS Reconstruct, TLC, Json
CONSTANTS NPart, NProf, NBin, NIter, Samples
VARIABLE n
Rows == {r \in [1..NBin -> Samples] : \E k \in 1..NBin : r[k] > 0}
InitStates ==
  /\ xp \in [1..NPart -> [1..NProf -> 0..NBin-1]]
  /\ meas \in [1..NProf -> Rows]
  /\ use = <<>> /\ mult = <<>> /\ cols = <<>> /\ recip = <<>> /\ w = <<>> /\ rec = <<>> /\ corr = <<>> /\ top = "0.0" /\ diffs = <<>>
  /\ ph = "prep" /\ n = 0
Start == /\ ph = "prep" /\ Prepare(meas, xp) /\ n' = 0
         /\ PrintT(<<"@G", ToJson([xp |-> xp, raw |-> meas])>>)
Next == \/ Start
        \/ ph # "prep" /\ n <= NIter
           /\ RStep /\ n' = IF ph = "proj" THEN n + 1 ELSE n
Spec == InitStates /\ [][Next]_<<rvars, n>>
NonNeg == ph \in {"proj", "corr"} => NonNegative
Bounded == Len(diffs) <= NIter + 1
=============================================================================
