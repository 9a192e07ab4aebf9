----------------------------- MODULE MC_Quality -----------------------------
(* All small images: scaling, mirroring, moving the axes and raising the    *)
(* fraction act on the figures as they should.                              *)
EXTENDS Quality, Integers, FiniteSets, TLC, Json
CONSTANTS N, M, Levels, Fractions
VARIABLES d
Init == d \in [1..N -> [1..M -> Levels]] /\ \E i \in 1..N, j \in 1..M : d[i][j] > 0
Next == PrintT(<<"@G", ToJson([d |-> d])>>) /\ UNCHANGED d
Spec == Init /\ [][Next]_d
T == [i \in 1..N |-> RMul("0.5", i)]
E == [j \in 1..M |-> RMul("3.0", j)]
Scaled == [i \in 1..N |-> [j \in 1..M |-> 4 * d[i][j]]]
Flipped == [i \in 1..N |-> [j \in 1..M |-> d[N + 1 - i][M + 1 - j]]]
Moved(b) == [k \in 1..Len(b) |-> RAdd(b[k], "7.0")]
Twice(b) == [k \in 1..Len(b) |-> RMul(b[k], "2.0")]
Eq(x, y) == RNear(x, y, "1e-9", "1e-9")
Sig(x) == Sigma(ProjT(x), T)
Scaling == Eq(Sig(Scaled), Sig(d)) /\ \A f \in Fractions : Cells(Scaled, f) = Cells(d, f)
Mirror == Eq(Sig(Flipped), Sig(d)) /\ \A f \in Fractions : Cells(Flipped, f) = Cells(d, f)
Moving == Eq(Sigma(ProjE(d), Moved(E)), Sigma(ProjE(d), E))
Area == /\ Eq(Sigma(ProjT(d), Twice(T)), RMul(2, Sigma(ProjT(d), T)))
        /\ \A f \in Fractions : Eq(EmitFrac(d, Twice(T), E, f), RMul(2, EmitFrac(d, T, E, f)))
Monotone == \A f, g \in Fractions : RLe(f, g) => Cells(d, f) <= Cells(d, g)
Fewer == \A f \in Fractions : Cells(d, f) < Cardinality({<<i, j>> \in (1..N) \X (1..M) : d[i][j] > 0})
=============================================================================
