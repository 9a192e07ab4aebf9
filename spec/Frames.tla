------------------------------- MODULE Frames -------------------------------
(***************************************************************************)
(* Raw samples, frame layout, baseline, rebinning, measured profiles.      *)
(* A layout f is [n, len, skip, sl, se, rebin]: n frames of len samples;   *)
(* skip frames are ignored at the start, sl and se samples at the start    *)
(* and the end of every frame.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences
FrameValid(f) == /\ f.n > 0 /\ f.skip \in 0..f.n-1
                 /\ f.len > 0 /\ f.sl \in 0..f.len-1 /\ f.se \in 0..f.len-1
                 /\ f.sl + f.se < f.len
                 /\ f.rebin >= 1
NProfs(f) == f.n - f.skip
NBins(f) == f.len - f.sl - f.se
\* 1-based position in the raw data of profile i, bin j (both 1-based).
RawIndex(f, i, j) == (f.skip + i - 1) * f.len + f.sl + j
RawToWaterfall(f, raw) == [i \in 1..NProfs(f) |-> [j \in 1..NBins(f) |-> raw[RawIndex(f, i, j)]]]
\* Rebinning by r: bins of r consecutive samples.  When r does not divide the
\* number of samples, one more bin is r times the mean of the samples from
\* the last complete group on.
Groups(n, r) == n \div r
NewBins(n, r) == IF n % r = 0 THEN Groups(n, r) ELSE Groups(n, r) + 1
GroupOf(n, r, k) == IF k <= Groups(n, r) THEN ((k - 1) * r + 1)..(k * r)
                    ELSE ((Groups(n, r) - 1) * r + 1)..n
=============================================================================
