------------------------------ MODULE MC_Lost ------------------------------
(* Every small coordinate table over {-1, 0, 1, nb-1, nb}, all particle     *)
(* counts and profiles: the cases replayed by C09.                          *)
EXTENDS Coordinates, TLC, Json, FiniteSets
CONSTANTS NB, MaxPart, MaxProf
VARIABLE xp
Vals == {-1, 0, NB - 1, NB}
Init == \E n \in 1..MaxPart, p \in 1..MaxProf : xp \in [1..p -> [1..n -> Vals]]
Next == UNCHANGED xp
Spec == Init /\ [][Next]_xp
KeptInside == \A k \in {Kept(xp, NB)[j] : j \in DOMAIN Kept(xp, NB)} : \A p \in DOMAIN xp : xp[p][k] \in 0..NB-1
LostOutside == \A i \in DOMAIN xp[1] : (i \notin {Kept(xp, NB)[j] : j \in DOMAIN Kept(xp, NB)}) =>
                  \E p \in DOMAIN xp : xp[p][i] \notin 0..NB-1
Ordered == \A a, b \in DOMAIN Kept(xp, NB) : a < b => Kept(xp, NB)[a] < Kept(xp, NB)[b]
Emit == PrintT(<<"@G", ToJson([xp |-> xp])>>)
=============================================================================
