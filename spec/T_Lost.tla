------------------------------- MODULE T_Lost -------------------------------
EXTENDS TraceLoop, Coordinates
\* T: xp, yp rows per profile; fx, fy, lost from filter_lost; tx, ty from
\* ready_for_tomography (particle major, integers).
PickRow(v, keep) == [k \in 1..Len(keep) |-> v[keep[k]]]
Clauses(T) == LET keep == Kept(T.xp, T.nb) n == Len(T.xp[1]) np == Len(T.xp) IN
  IF Len(keep) = 0 THEN <<
    <<T.fout # "ok" /\ T.ferr = "InvalidParticleError", "all particles lost, not reported">>,
    <<T.tout # "ok" /\ T.terr = "InvalidParticleError", "all particles lost, not reported (ready_for_tomography)">>,
    <<T.unchanged, "input arrays changed">> >>
  ELSE <<
    <<T.fout = "ok", "filtering rejected">>,
    <<T.lost = n - Len(keep), "number of lost particles">>,
    <<Len(T.fx) = np /\ \A p \in 1..np : T.fx[p] = PickRow(T.xp[p], keep), "x of the kept particles">>,
    <<Len(T.fy) = np /\ \A p \in 1..np : T.fy[p] = PickRow(T.yp[p], keep), "y of the kept particles">>,
    <<T.tout = "ok", "ready_for_tomography rejected">>,
    <<Len(T.tx) = Len(keep) /\ Len(T.ty) = Len(keep), "particles ready for tomography">>,
    <<\A k \in 1..Len(keep) : T.tx[k] = [p \in 1..np |-> RInt(T.xp[p][keep[k]])], "x bin">>,
    <<\A k \in 1..Len(keep) : T.ty[k] = [p \in 1..np |-> RInt(T.yp[p][keep[k]])], "y bin">>,
    <<\A k \in 1..Len(keep) : \A p \in 1..np : T.tx[k][p] \in 0..T.nb-1, "bin outside the image">>,
    <<T.intdtype, "bins are not integers">>,
    <<T.unchanged, "input arrays changed">> >>
LostVerdicts(T) == {FirstBad(Clauses(T), IF Len(Kept(T.xp, T.nb)) = 0 THEN "all lost"
                             ELSE IF Len(Kept(T.xp, T.nb)) = Len(T.xp[1]) THEN "none lost" ELSE "some lost")}
=============================================================================
