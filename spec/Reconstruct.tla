---------------------------- MODULE Reconstruct ----------------------------
(***************************************************************************)
(* The iterative (ART-like) tomographic reconstruction as a state machine. *)
(* One action per step of the algorithm, as in the C++ routine:            *)
(*   Prepare      count the particles per bin, normalise the measurement   *)
(*   BackProject0 first back projection and clip                           *)
(*   Project      project the weights, normalise every profile             *)
(*   Correct      record the discrepancy, back-project the compensated     *)
(*                difference, clip                                         *)
(* xp[i][j] is the (0-based) bin of particle i in profile j.               *)
(***************************************************************************)
EXTENDS Num

VARIABLES
  xp,      \* particle -> profile -> bin
  mult,    \* particle -> how many particles move like it (all of them share its weight)
  use,     \* particle -> BOOLEAN: may it carry weight? (all TRUE for one bunch)
  meas,    \* normalised measured waterfall: profile -> bin -> real
  cols,    \* profile -> sequence of the particles' bins (transpose of xp)
  recip,   \* profile -> bin -> amplification
  w,       \* weights
  rec,     \* recreated waterfall (projection of w, normalised)
  corr,    \* profile -> bin -> amplified difference to be back-projected
  top,     \* largest weight before the last clip (how clearly weight remains)
  diffs,   \* discrepancies recorded so far
  ph       \* phase: "prep","amp","bp0","proj","corr","dead"

rvars == <<xp, mult, use, meas, cols, recip, w, rec, corr, top, diffs, ph>>

NP == Len(meas)            \* number of profiles
NB == Len(meas[1])         \* number of bins
Clip(x) == RMax(x, "0.0")
NormRow(r) == RDivS(r, RSum(r))
ClipRow(r) == RClipV(r)

\* The measurement as the reconstruction sees it.
Normalised(raw) == [j \in 1..Len(raw) |-> NormRow(ClipRow(raw[j]))]

Ones(n) == [i \in 1..n |-> 1]
ToReal(n) == RAdd(n, 0)
Counts(c, n) == RScatter(c, mult', n)

RMSDiff(a, b) ==
  RSqrt(RDiv(RSum([j \in 1..Len(a) |->
           RSumSq(RSubV(a[j], b[j]))]),
        Len(a) * Len(a[1])))

\* Start of a reconstruction of the raw waterfall `raw` with coordinates `x`.
PrepareAs(raw, x, mask, many) ==
  /\ xp' = x
  /\ mult' = many
  /\ use' = mask
  /\ meas' = Normalised(raw)
  /\ cols' = [j \in 1..Len(raw) |-> [i \in 1..Len(x) |-> x[i][j]]]
  /\ recip' = [j \in 1..Len(raw) |-> Counts(cols'[j], Len(raw[1]))]
  /\ w' = [i \in 1..Len(x) |-> "0.0"]
  /\ rec' = <<>> /\ corr' = <<>> /\ top' = "0.0" /\ diffs' = <<>> /\ ph' = "amp"

PrepareMasked(raw, x, mask) == PrepareAs(raw, x, mask, Ones(Len(x)))
Prepare(raw, x) == PrepareMasked(raw, x, [i \in 1..Len(x) |-> TRUE])

\* Amplification: fullest bin of all profiles over the bin's own count.
Amplify ==
  /\ ph = "amp"
  /\ \E m \in {RMaxSeq([j \in 1..NP |-> RMaxSeq(recip[j])])} :
        recip' = [j \in 1..NP |-> [k \in 1..NB |->
                    RDiv(m, RMax(recip[j][k], "1.0"))]]
  /\ ph' = "bp0"
  /\ UNCHANGED <<xp, mult, use, meas, cols, w, rec, corr, top, diffs>>

Gather(p, i) == RGather(p, xp[i])

BackProject0 ==
  /\ ph = "bp0"
  /\ w' = [i \in 1..Len(xp) |-> IF use[i] THEN Clip(RAdd(w[i], Gather(meas, i))) ELSE w[i]]
  /\ top' = "1.0"
  /\ ph' = IF RLe(RSum(w'), "0.0") THEN "dead" ELSE "proj"
  /\ UNCHANGED <<xp, mult, use, meas, cols, recip, rec, corr, diffs>>

Project ==
  /\ ph = "proj"
  /\ rec' = [j \in 1..NP |-> NormRow(RScatter(cols[j], RMulV(w, mult), NB))]
  /\ diffs' = Append(diffs, RMSDiff(meas, rec'))
  /\ corr' = [j \in 1..NP |-> RMulV(RSubV(meas[j], rec'[j]), recip[j])]
  /\ ph' = "corr"
  /\ UNCHANGED <<xp, mult, use, meas, cols, recip, w, top>>

Correct ==
  /\ ph = "corr"
  /\ w' = [i \in 1..Len(xp) |-> IF use[i] THEN Clip(RAdd(w[i], Gather(corr, i))) ELSE w[i]]
  /\ top' = RMaxSeq([i \in 1..Len(xp) |-> IF use[i] THEN RAdd(w[i], Gather(corr, i)) ELSE "-Infinity"])
  /\ ph' = IF RLe(RSum(w'), "0.0") THEN "dead" ELSE "proj"
  /\ UNCHANGED <<xp, mult, use, meas, cols, recip, rec, corr, diffs>>

-----------------------------------------------------------------------------
(* Several bunches: the particle set is repeated once per bunch, shifted to *)
(* the bunch centre; copy (b, i) is particle (b-1)*n + i.  It may carry     *)
(* weight only if it stays within the bunch's cuts (bounds included) in     *)
(* every profile.  Masked copies still count as occupants of their bins.    *)
MultiCoords(x, centers) ==
  [m \in 1..(Len(x) * Len(centers)) |->
     LET b == ((m - 1) \div Len(x)) + 1  i == ((m - 1) % Len(x)) + 1
     IN [j \in 1..Len(x[1]) |-> x[i][j] + centers[b]]]
MultiMask(x, centers, cl, cr) ==
  [m \in 1..(Len(x) * Len(centers)) |->
     LET b == ((m - 1) \div Len(x)) + 1  i == ((m - 1) % Len(x)) + 1
     IN \A j \in 1..Len(x[1]) : x[i][j] + centers[b] >= cl[b] /\ x[i][j] + centers[b] <= cr[b]]
\* Discrepancy of one bunch: over the bins [l, r) of every profile.
WindowRMS(a, b, l, r) ==
  RSqrt(RDiv(RSum([j \in 1..Len(a) |-> RSumSq(RSubV(SubSeq(a[j], l + 1, r), SubSeq(b[j], l + 1, r)))]),
             Len(a) * (r - l)))
-----------------------------------------------------------------------------
RStep == Amplify \/ BackProject0 \/ Project \/ Correct

-----------------------------------------------------------------------------
\* Properties of the design.
\* All weight is about to vanish, and only by rounding: no outcome can be demanded.
Fragile == RLt(RAbs(top), "1e-5")
NonNegative == \A i \in 1..Len(w) : RLe("0.0", w[i]) /\ RFinite(w[i])
RecNormalised ==
  ph = "corr" => \A j \in 1..NP : RClose(RSum(rec[j]), "1.0", "1e-9")
\* A bin no particle visits is never recreated.
SupportOnly ==
  ph = "corr" => \A j \in 1..NP, k \in 1..NB :
     (\A i \in 1..Len(xp) : xp[i][j] # k - 1) => REq(rec[j][k], 0)
AmplifiedAtLeastOne ==
  ph \in {"bp0", "proj", "corr"} =>
     \A j \in 1..NP, k \in 1..NB : RLe("1.0", recip[j][k])
\* Two particles with the same trajectory always have the same weight.
SameTrajectorySameWeight ==
  ph # "prep" => \A a, b \in 1..Len(xp) : (xp[a] = xp[b] /\ use[a] = use[b]) => w[a] = w[b]
=============================================================================
