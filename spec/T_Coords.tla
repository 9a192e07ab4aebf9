------------------------------ MODULE T_Coords ------------------------------
EXTENDS TraceLoop, Coordinates
\* T: phi0, omega per turn; dphi, de rows per profile; xp, yp the result.
Conv(T) == LET at(p) == (p - 1) * T.dt + 1 IN <<
  <<Len(T.xp) = Len(T.dphi) /\ Len(T.yp) = Len(T.dphi), "number of profiles">>,
  <<\A p \in 1..Len(T.dphi) : RCloseSeq(T.xp[p],
      [i \in 1..Len(T.dphi[p]) |-> XImage(T.dphi[p][i], T.phi0[at(p)], T.omega[at(p)], T.hn, T.dtbin, T.xorigin)], T.tol), "x coordinate">>,
  <<\A p \in 1..Len(T.de) : RCloseSeq(T.yp[p],
      [i \in 1..Len(T.de[p]) |-> YImage(T.de[p][i], T.dEbin, T.spy)], T.tol), "y coordinate">> >>
Mismatch(T) == <<
  <<T.outcome # "ok" /\ T.error = "InvalidParticleError", "arrays of different shape accepted">> >>
\* round trip: row rec of the converted distribution lies on the grid it was made from
Trip(T) == <<
  <<RCloseSeq(T.x, T.gx, T.tol), "image to physical to image, x">>,
  <<RCloseSeq(T.y, T.gy, T.tol), "image to physical to image, y">> >>
\* a distribution made between two profiles lies on the grid of its own turn
Between(T) == <<
  <<\A k \in 1..Len(T.dphi) : RClose(RSub(RDiv(RAdd(T.dphi[k], T.phi0), RMul(RMul(T.hn, T.omega), T.dtbin)), T.xorigin), T.gx[k], T.tol), "phase of a distribution between profiles">>,
  <<\A k \in 1..Len(T.de) : RClose(RAdd(RDiv(T.de[k], T.dEbin), T.spy), T.gy[k], T.tol), "energy of a distribution between profiles">> >>
CoordsVerdicts(T) ==
  IF T.kind = "mismatch" THEN {FirstBad(Mismatch(T), "different shapes rejected")}
  ELSE IF T.outcome # "ok" THEN {"bad:conversion rejected"}
  ELSE IF T.kind = "trip" THEN {FirstBad(Trip(T), "round trip")}
  ELSE IF T.kind = "between" THEN {FirstBad(Between(T), "distribution between profiles")}
  ELSE {FirstBad(Conv(T), T.kind)}
=============================================================================
