----------------------------- MODULE T_Parallel -----------------------------
(* "footprint": T.regions, a sequence of [fn, threads, classes]; a class is *)
(* <<bytes, pr, pw, sr, sw>>, the number of bytes touched by those threads. *)
(* "same": T.want and T.gots, result vectors of one computation run         *)
(* sequentially and under other thread counts or schedules.                 *)
EXTENDS TraceLoop, ParLoop
ClassRaces(k) == LocationRaces(ToSet(k[2]), ToSet(k[3]), ToSet(k[4]), ToSet(k[5]))
RegionBad(r) == {i \in 1..Len(r.classes) : ClassRaces(r.classes[i])}
BadRegions(T) == {i \in 1..Len(T.regions) : RegionBad(T.regions[i]) # {}}
Tol(v, rel) == RAdd("1e-300", RMul(rel, RMaxSeq([i \in 1..Len(v) |-> RAbs(v[i])])))
Same(a, b, rel) == /\ a.outcome = b.outcome
                   /\ Len(a.vecs) = Len(b.vecs)
                   /\ \A k \in 1..Len(a.vecs) : RCloseSeq(a.vecs[k], b.vecs[k], Tol(a.vecs[k], rel))
ParVerdicts(T) ==
  IF T.kind = "footprint" THEN
    {IF BadRegions(T) = {} THEN "ok:footprint " \o T.op
     ELSE "bad:two threads touch one location in a parallel loop of " \o T.op \o "|"
          \o ToString([i \in BadRegions(T) |-> <<T.regions[i].fn, T.regions[i].classes[CHOOSE j \in RegionBad(T.regions[i]) : TRUE]>>])}
  ELSE {IF \A i \in 1..Len(T.gots) : Same(T.want, T.gots[i], T.rel) THEN "ok:" \o T.how \o " " \o T.op
        ELSE "bad:result of " \o T.op \o " depends on the " \o T.how}
=============================================================================
