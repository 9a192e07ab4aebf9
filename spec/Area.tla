-------------------------------- MODULE Area --------------------------------
(***************************************************************************)
(* The reconstruction area: which cells of the phase-space image get       *)
(* particles.  Columns i are phase bins 0..nb-1; column i holds the cells  *)
(* j with jmin[i] <= j < jmax[i].  Sequences are 1-based: column i is at   *)
(* position i+1.                                                           *)
(***************************************************************************)
EXTENDS Physics, FiniteSets
\* Turn-local values: t = [phi0, omega, e0, beta, eta, drift, v1, v2, phi12]
XOrigin(t, hn, dtbin, spx) == RSub(RDiv(t.phi0, RMul(RMul(hn, t.omega), dtbin)), spx)
PhaseOf(t, hn, dtbin, xorigin, i) == RMul(RMul(RMul(RAdd(xorigin, i), dtbin), hn), t.omega)
\* Height of the trajectory through (known, dE = 0) at phase phi.
Height(t, q, h, phi, known) ==
  LET a == RMul(RDiv(RMul(2, q), t.drift),
                RAdd(RAdd(RMul(t.v1, RSub(RCos(phi), RCos(known))),
                          RDiv(RMul(t.v2, RSub(RCos(RMul(h, RSub(phi, t.phi12))),
                                               RCos(RMul(h, RSub(known, t.phi12))))), h)),
                     RMul(RSub(phi, known), VRF(t.phi0, t.v1, t.v2, h, t.phi12))))
  IN IF RLe(a, 0) THEN "0.0" ELSE RSqrt(a)
Force(v) == v \o <<>>    \* evaluate a sequence once
\* Heights along the image of the trajectories through the first and last bin edge.
Heights(m, t, xorigin, edge) ==
  Force([k \in 1..m.nb+1 |-> Height(t, m.q, m.h, PhaseOf(t, m.hn, m.dtbin, xorigin, k - 1),
                                    PhaseOf(t, m.hn, m.dtbin, xorigin, edge))])
\* Energy height of a cell, t at the beam reference turn.
EnergyBin(m, t, xorigin) ==
  IF RLt(0, m.demax) THEN RDiv(m.demax, RSub(m.nb, m.spy))
  ELSE IF REq(t.v2, 0) THEN
    RMul(RMul(RMul(RMul(t.beta, RSqrt(RDiv(RMul(RMul(RMul(t.e0, m.q), t.v1), RCos(t.phi0)),
                                     RMul(RMul(TwoPI, m.hn), t.eta)))), m.dtbin), m.hn), t.omega)
  ELSE RDiv(RMin(RMaxSeq(Heights(m, t, xorigin, 0)), RMaxSeq(Heights(m, t, xorigin, m.nb))),
            RSub(m.nb, m.spy))
-----------------------------------------------------------------------------
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
MinSeq(s) == CHOOSE x \in {s[k] : k \in DOMAIN s} : \A k \in DOMAIN s : x <= s[k]
\* Integers below: nb bins; twice the synchronous row is nb.
FloorSpy(nb) == nb \div 2
\* mirrored lower limit: ceil(nb - jmax - 1/2) = nb - jmax, at least row 1
Mirror(nb, jx) == Max2(1, nb - jx)
\* lower limit of a column without height: ceil(nb - jmax + 1/2)
CutMin(nb, jx) == nb - jx + 1
FullMax(nb) == [k \in 1..nb |-> nb]
\* The limits from the heights' upper limits jx0, the user's bins lo..hi (hi
\* exclusive) and whether the full image is wanted.
Limits(nb, jx0, lo, hi0, full) ==
  LET hi == Min2(hi0, nb)
      jn0 == [k \in 1..nb |-> IF full THEN CutMin(nb, nb) ELSE Mirror(nb, jx0[k])]
      valid == {k \in 1..nb : jx0[k] >= jn0[k]}
      first == IF full THEN 0 ELSE (CHOOSE k \in valid : \A n \in valid : k <= n) - 1
      last  == IF full THEN nb ELSE (CHOOSE k \in valid : \A n \in valid : k >= n) - 1
      cutL == lo > first \/ full
      cutR == hi <= last \/ full
      cut == {k \in 1..nb : (cutL /\ k <= lo) \/ (cutR /\ k > hi)}
      jx == [k \in 1..nb |-> IF k \in cut THEN FloorSpy(nb) ELSE jx0[k]]
      jn == [k \in 1..nb |-> IF k \in cut THEN CutMin(nb, FloorSpy(nb)) ELSE jn0[k]]
      im == IF cutL THEN lo ELSE first
      ix == IF cutR THEN hi - 1 ELSE last
      empty == \A k \in 1..nb : jn0[k] >= jx0[k]
  IN IF ~full /\ empty THEN [ok |-> FALSE]
     ELSE IF im < 0 \/ im > ix THEN [ok |-> FALSE]
     ELSE IF \E k \in im+1..ix : jn[k] > jx[k] THEN [ok |-> FALSE]
     ELSE IF \A k \in 1..nb : jn[k] >= jx[k] THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, jmin |-> jn, jmax |-> jx, imin |-> im, imax |-> ix]
CellsOf(A) == {<<i, j>> \in {<<i, j>> : i \in A.imin..A.imax, j \in 0..Len(A.jmax)} :
                  A.jmin[i+1] <= j /\ j < A.jmax[i+1]}
=============================================================================
