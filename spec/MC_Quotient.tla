---------------------------- MODULE MC_Quotient ----------------------------
(* Particles with the same trajectory may be kept once, with their number:  *)
(* the reconstruction of the kept ones, counted with their numbers, is the  *)
(* reconstruction of all of them.  (Lets T_Reconstruct judge runs of the    *)
(* real code with hundreds of thousands of particles.)                      *)
EXTENDS Reconstruct, TLC
CONSTANTS NPart, NProf, NBin, NIter, Samples, MaxMult
VARIABLES n, xp2, mult2, use2, meas2, cols2, recip2, w2, rec2, corr2, top2, diffs2, ph2
vars2 == <<xp2, mult2, use2, meas2, cols2, recip2, w2, rec2, corr2, top2, diffs2, ph2>>
All == INSTANCE Reconstruct WITH xp <- xp2, mult <- mult2, use <- use2, meas <- meas2, cols <- cols2, recip <- recip2,
         w <- w2, rec <- rec2, corr <- corr2, top <- top2, diffs <- diffs2, ph <- ph2
Rows == {r \in [1..NBin -> Samples] : \E k \in 1..NBin : r[k] > 0}
RECURSIVE Upto(_, _)
Upto(m, k) == IF k = 0 THEN 0 ELSE m[k] + Upto(m, k - 1)
\* the kept particle that particle i of all of them moves like
Of(m, i) == CHOOSE k \in 1..Len(m) : Upto(m, k - 1) < i /\ i <= Upto(m, k)
Init ==
  /\ xp \in [1..NPart -> [1..NProf -> 0..NBin-1]]
  /\ \A a, b \in 1..NPart : a < b => xp[a] # xp[b]
  /\ meas \in [1..NProf -> Rows]
  /\ mult \in [1..NPart -> 1..MaxMult]
  /\ use = <<>> /\ cols = <<>> /\ recip = <<>> /\ w = <<>> /\ rec = <<>> /\ corr = <<>> /\ top = "0.0" /\ diffs = <<>>
  /\ ph = "prep" /\ n = 0
  /\ xp2 = [i \in 1..Upto(mult, NPart) |-> xp[Of(mult, i)]] /\ meas2 = meas
  /\ mult2 = <<>> /\ use2 = <<>> /\ cols2 = <<>> /\ recip2 = <<>> /\ w2 = <<>> /\ rec2 = <<>> /\ corr2 = <<>>
  /\ top2 = "0.0" /\ diffs2 = <<>> /\ ph2 = "prep"
Start == /\ ph = "prep" /\ n' = 0
         /\ PrepareAs(meas, xp, [i \in 1..NPart |-> TRUE], mult)
         /\ All!Prepare(meas2, xp2)
Next == \/ Start
        \/ /\ ph \notin {"prep", "dead"} /\ ~(ph = "proj" /\ Fragile) /\ n <= NIter
           /\ RStep /\ All!RStep /\ n' = IF ph = "proj" THEN n + 1 ELSE n
Spec == Init /\ [][Next]_<<rvars, vars2, n>>
Same == ph # "prep" =>
  /\ ph = ph2
  /\ \A i \in 1..Len(w2) : RNear(w2[i], w[Of(mult, i)], "1e-9", "1e-9")
  /\ Len(diffs) = Len(diffs2) /\ \A k \in 1..Len(diffs) : RNear(diffs[k], diffs2[k], "1e-9", "1e-9")
  /\ Len(rec) = Len(rec2) /\ \A j \in 1..Len(rec), k \in 1..NBin : RNear(rec[j][k], rec2[j][k], "1e-9", "1e-9")
=============================================================================
