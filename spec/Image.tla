-------------------------------- MODULE Image --------------------------------
(* Phase-space images: cell (x, y) holds the weight of the particles there. *)
EXTENDS Num
Inside(xs, ys, n) == \A p \in 1..Len(xs) : xs[p] \in 0..n-1 /\ ys[p] \in 0..n-1
Cells(xs, ys, n) == [p \in 1..Len(xs) |-> xs[p] * n + ys[p]]
FlatImage(xs, ys, w, n) == RScatter(Cells(xs, ys, n), w, n * n)
Normalised(img) == LET pos == RClipV(img) IN RDivS(pos, RSum(pos))
Axis(n, sync, width) == [k \in 1..n |-> RMul(RSub(k - 1, sync), width)]
=============================================================================
