------------------------------ MODULE MC_Image -------------------------------
(* Every placement of a few particles with integer weights.                 *)
EXTENDS Integers, Sequences, TLC, Json, FiniteSets, SequencesExt
CONSTANTS N, P, Weights
VARIABLES xs, ys, w, img, done
vars == <<xs, ys, w, img, done>>
Coord == -1..N
Init == /\ xs \in [1..P -> Coord] /\ ys \in [1..P -> Coord] /\ w \in [1..P -> Weights]
        /\ img = [c \in (0..N-1) \X (0..N-1) |-> 0] /\ done = 0
In(p) == xs[p] \in 0..N-1 /\ ys[p] \in 0..N-1
Reject == \E p \in 1..P : ~In(p)
Place == /\ ~Reject /\ done < P
         /\ img' = [img EXCEPT ![<<xs[done+1], ys[done+1]>>] = @ + w[done+1]]
         /\ done' = done + 1 /\ UNCHANGED <<xs, ys, w>>
Emit == /\ ((done = 0 /\ Reject) \/ done = P)
        /\ PrintT(<<"@G", ToJson([xs |-> xs, ys |-> ys, w |-> w, n |-> N])>>) /\ UNCHANGED vars
Spec == Init /\ [][Place \/ Emit]_vars
S(f, D) == FoldLeft(LAMBDA a, b : a + f[b], 0, SetToSeq(D))
Total == S(img, DOMAIN img) = S(w, 1..done)
Projection == \A x \in 0..N-1 : S(img, {c \in DOMAIN img : c[1] = x}) = S(w, {p \in 1..done : xs[p] = x})
EnergyProjection == \A y \in 0..N-1 : S(img, {c \in DOMAIN img : c[2] = y}) = S(w, {p \in 1..done : ys[p] = y})
RejectedUntouched == Reject => S(img, DOMAIN img) = 0 /\ done = 0
=============================================================================
