------------------------------ MODULE Sampling ------------------------------
(* Macroparticles drawn from a density image.  d is a matrix of cell weights *)
(* (time by energy).  A cell is kept when its share of the whole is at least *)
(* the threshold; a particle falls into a kept cell with the probability of  *)
(* that cell among the kept ones, anywhere inside it.                        *)
EXTENDS Num, Naturals, Sequences
Cols(d) == 1..Len(d)
Rows(d) == 1..Len(d[1])
Whole(d) == RSum([k \in 1..(Len(d) * Len(d[1])) |-> d[((k - 1) \div Len(d[1])) + 1][((k - 1) % Len(d[1])) + 1]])
Keeps(d, thr, whole, i, j) == RLe(thr, RDiv(d[i][j], whole))
KeptWeight(d, thr) == CHOOSE m \in {[i \in Cols(d) |-> [j \in Rows(d) |-> IF Keeps(d, thr, whole, i, j) THEN d[i][j] ELSE "0.0"]] : whole \in {Whole(d)}} : TRUE
Open(d, thr) == UNION {{c \in Cols(d) \X Rows(d) : Keeps(d, thr, whole, c[1], c[2]) /\ RLt("0", d[c[1]][c[2]])} : whole \in {Whole(d)}}
Prob(d, thr, i, j) == RDiv(KeptWeight(d, thr)[i][j], Whole(KeptWeight(d, thr)))
\* the same for all cells: ProbM(d, thr)[i][j]
ProbM(d, thr) == CHOOSE m \in UNION {{ [i \in Cols(d) |-> [j \in Rows(d) |-> RDiv(k[i][j], tot)]] : tot \in {Whole(k)} } : k \in {KeptWeight(d, thr)}} : TRUE
\* the place v lies within half a bin of the centre c
Within(v, c, bin) == RLe(RAbs(RSub(v, c)), RMul(RAbs(bin), "0.500000001"))
=============================================================================
