------------------------------ MODULE MC_Cuts -------------------------------
(* All small waterfalls, thresholds and margins.                            *)
EXTENDS Cuts, TLC, Json
CONSTANTS Profs, Bins, Levels, Margins, Thresholds
VARIABLES w, thr, mg
Init == w \in UNION {[1..p -> [1..Bins -> Levels]] : p \in Profs} /\ thr \in Thresholds /\ mg \in Margins
Next == PrintT(<<"@G", ToJson([w |-> w, thr |-> thr, mg |-> mg])>>) /\ UNCHANGED <<w, thr, mg>>
Spec == Init /\ [][Next]_<<w, thr, mg>>
L == CutLeft(w, thr, mg)
R == CutRight(w, thr, mg)
Inside == 0 <= L /\ L < R /\ R <= NB(w)
\* both bins of every change above the threshold are kept
KeepsBeam == \A k \in Active(w, thr) : L <= k - 1 /\ k < R
NothingToCut == Active(w, thr) = {} => L = 0 /\ R = NB(w)
CutValid == CutOk(NB(w), L, R) /\ Len(CutRow(w[1], L, R)) = R - L
\* some profile always survives the filter, in order
Filter == LET pos == \E i \in 1..Len(w) : RLt("0", RSum(w[i])) IN
   pos => /\ Kept(w) # <<>>
          /\ \A a, b \in 1..Len(Kept(w)) : a < b => Kept(w)[a] < Kept(w)[b]
          /\ \A i, j \in 1..Len(w) : (RLe(RSum(w[i]), RSum(w[j])) /\ i \in {Kept(w)[a] : a \in 1..Len(Kept(w))}) => j \in {Kept(w)[a] : a \in 1..Len(Kept(w))}
=============================================================================
