---------------------------- MODULE Coordinates ----------------------------
(* Image coordinates of tracked particles and removal of lost ones.         *)
(* Profile p uses the parameters of its own turn p*dt.                      *)
EXTENDS Num
XImage(dphi, phi0, omega, hn, dtbin, xorigin) ==
  RSub(RDiv(RAdd(dphi, phi0), RMul(RMul(hn, omega), dtbin)), xorigin)
YImage(de, dEbin, spy) == RAdd(RDiv(de, dEbin), spy)
\* Particle i of xp (a sequence of profiles) stays inside [0, nb).
Stays(xp, i, nb) == \A p \in 1..Len(xp) : RLe(0, xp[p][i]) /\ RLt(xp[p][i], nb)
\* positions of the kept particles, in order
Kept(xp, nb) == SelectSeq([k \in 1..Len(xp[1]) |-> k], LAMBDA i : Stays(xp, i, nb))
=============================================================================
