------------------------------ MODULE MC_Area ------------------------------
(* Every upper-limit shape, user range and flag on a small image.           *)
EXTENDS Area, TLC
CONSTANTS NB
VARIABLES jx0, lo, hi, full, A
vars == <<jx0, lo, hi, full, A>>
\* The code's upper limits never fall below the synchronous row.
Shapes == [1..NB -> FloorSpy(NB)..NB]
Init == /\ jx0 \in Shapes /\ lo = 0 /\ hi = NB /\ full = FALSE
        /\ A = Limits(NB, jx0, 0, NB, FALSE)
Narrow == \E l \in 0..NB, h \in 0..NB+1, f \in BOOLEAN :
             /\ lo' = l /\ hi' = h /\ full' = f
             /\ A' = Limits(NB, IF f THEN FullMax(NB) ELSE jx0, l, h, f)
             /\ UNCHANGED jx0
Next == lo = 0 /\ hi = NB /\ ~full /\ Narrow
Spec == Init /\ [][Next]_vars
InsideImage == A.ok => /\ 0 <= A.imin /\ A.imin <= A.imax /\ A.imax < NB
                       /\ \A k \in A.imin+1..A.imax+1 :
                             A.jmin[k] < A.jmax[k] => A.jmin[k] >= 1 /\ A.jmax[k] <= NB
\* the area is mirrored about the synchronous energy (row 0 is never used)
Mirrored == (A.ok /\ ~full) =>
   \A i \in A.imin..A.imax, j \in 1..NB : (<<i, j>> \in CellsOf(A) /\ NB - 1 - j >= 1) => <<i, NB - 1 - j>> \in CellsOf(A)
NonEmpty == A.ok => CellsOf(A) # {}
\* a user range never adds cells
OnlyNarrows == LET B == Limits(NB, IF full THEN FullMax(NB) ELSE jx0, 0, NB, full) IN
               (A.ok /\ B.ok) => CellsOf(A) = {x \in CellsOf(B) : lo <= x[1] /\ x[1] < hi}
\* a range that keeps populated columns without gaps is accepted
KeepsAccepting == LET B == Limits(NB, jx0, 0, NB, FALSE) IN
   (~full /\ B.ok /\ lo < hi /\ \E x \in CellsOf(B) : lo <= x[1] /\ x[1] < hi) => A.ok
=============================================================================
