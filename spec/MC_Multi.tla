------------------------------ MODULE MC_Multi ------------------------------
(* Multi-bunch reconstructions of the small scope, each in lockstep with    *)
(* the single-bunch algorithm when there is one unshifted bunch: the two    *)
(* agree (checked as LikeSingle through a second instance).                 *)
EXTENDS Reconstruct, TLC, Json
CONSTANTS NPart, NProf, NBin, NIter, Rows, Layouts
VARIABLES n, x0, lay, sw
\* a layout: centres, left cuts, right cuts
Trajs == [1..NProf -> 0..NBin-1]
InitStates ==
  /\ x0 \in [1..NPart -> Trajs]
  /\ lay \in Layouts
  /\ \A i \in 1..NPart, j \in 1..NProf, b \in 1..Len(lay.c) :
        x0[i][j] + lay.c[b] >= 0 /\ x0[i][j] + lay.c[b] < NBin
  /\ meas \in [1..NProf -> Rows]
  /\ xp = <<>> /\ use = <<>> /\ mult = <<>> /\ cols = <<>> /\ recip = <<>> /\ w = <<>> /\ rec = <<>> /\ corr = <<>> /\ top = "0.0"
  /\ diffs = <<>> /\ ph = "prep" /\ n = 0 /\ sw = <<>>
Start == /\ ph = "prep"
         /\ PrepareMasked(meas, MultiCoords(x0, lay.c), MultiMask(x0, lay.c, lay.l, lay.r))
         /\ n' = 0 /\ UNCHANGED <<x0, lay, sw>>
         /\ PrintT(<<"@G", ToJson([xp |-> x0, raw |-> meas, c |-> lay.c, l |-> lay.l, r |-> lay.r])>>)
Step == /\ ph # "prep" /\ n <= NIter /\ RStep
        /\ n' = IF ph = "proj" THEN n + 1 ELSE n
        /\ sw' = IF ph = "proj" THEN [b \in 1..Len(lay.c) |->
                    WindowRMS(meas, rec', lay.l[b], lay.r[b])] ELSE sw
        /\ UNCHANGED <<x0, lay>>
Next == Start \/ Step
Spec == InitStates /\ [][Next]_<<rvars, n, x0, lay, sw>>
NonNeg == ph \in {"proj", "corr"} => NonNegative
MaskedCarryNothing == ph \in {"proj", "corr"} => \A i \in 1..Len(w) : ~use[i] => REq(w[i], 0)
\* A window spanning the profile has the total discrepancy.
WholeWindow == ph = "corr" => \A b \in 1..Len(lay.c) :
   (lay.l[b] = 0 /\ lay.r[b] = NBin) => RClose(sw[b], diffs[Len(diffs)], "1e-12")
\* With one unshifted bunch and cuts spanning the profile nothing is masked.
LikeSingle == (ph # "prep" /\ Len(lay.c) = 1 /\ lay.c[1] = 0 /\ lay.l[1] = 0 /\ lay.r[1] >= NBin - 1)
   => (xp = x0 /\ \A i \in 1..Len(use) : use[i])
ConstRows == {<<1, 0, 2>>, <<0, 3, 1>>, <<2, 2, 2>>}
ConstLayouts == { [c |-> <<0>>, l |-> <<0>>, r |-> <<3>>],
                  [c |-> <<0, 1>>, l |-> <<0, 1>>, r |-> <<1, 3>>],
                  [c |-> <<0, 1>>, l |-> <<0, 0>>, r |-> <<3, 2>>],
                  [c |-> <<1, -1>>, l |-> <<1, 0>>, r |-> <<2, 3>>] }
=============================================================================
