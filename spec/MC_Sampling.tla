----------------------------- MODULE MC_Sampling ----------------------------
(* All small densities and thresholds: the drawing of N particles.          *)
EXTENDS Sampling, TLC, Json
CONSTANTS NX, NY, Levels, Thresholds, N
VARIABLES d, thr, drawn
vars == <<d, thr, drawn>>
Init == /\ d \in [1..NX -> [1..NY -> Levels]] /\ RLt("0", Whole(d)) /\ thr \in Thresholds /\ drawn = <<>>
Draw == /\ Len(drawn) < N
        /\ \E c \in Open(d, thr) : drawn' = Append(drawn, c)
        /\ UNCHANGED <<d, thr>>
Emit == drawn = <<>> /\ PrintT(<<"@G", ToJson([d |-> d, thr |-> thr])>>) /\ UNCHANGED vars
Next == Draw \/ Emit
Spec == Init /\ [][Next]_vars
\* every particle lies in a cell that has weight and reaches the threshold
InWeight == \A k \in 1..Len(drawn) : RLt("0", d[drawn[k][1]][drawn[k][2]]) /\ Keeps(d, thr, Whole(d), drawn[k][1], drawn[k][2])
\* probabilities are a distribution over exactly the open cells
Distribution == (Open(d, thr) # {}) =>
   /\ RNear(RSum([k \in 1..(NX * NY) |-> Prob(d, thr, ((k - 1) \div NY) + 1, ((k - 1) % NY) + 1)]), "1", "1e-12", "0")
   /\ \A i \in 1..NX, j \in 1..NY : RLt("0", Prob(d, thr, i, j)) <=> <<i, j>> \in Open(d, thr)
\* without a threshold nothing that has weight is dropped; a higher threshold keeps fewer cells
Monotone == /\ (REq(thr, "0") => Open(d, thr) = {c \in (1..NX) \X (1..NY) : RLt("0", d[c[1]][c[2]])})
            /\ \A u \in Thresholds : RLe(thr, u) => Open(d, u) \subseteq Open(d, thr)
\* cells of equal weight are equally likely
Fair == \A a, b \in Open(d, thr) : d[a[1]][a[2]] = d[b[1]][b[2]] => REq(Prob(d, thr, a[1], a[2]), Prob(d, thr, b[1], b[2]))
=============================================================================
