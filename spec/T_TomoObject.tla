---------------------------- MODULE T_TomoObject ----------------------------
(* Replays recorded histories in the specification, operation by operation. *)
(* T.vals: name -> stored matrix; T.runs: run id -> [w, d, r] on a fresh    *)
(* object; T.meas: the measured waterfall; T.steps: operations with outcome *)
(* and what was read back afterwards.                                       *)
EXTENDS TraceLoop, TomoObject
RowN(r) == RDivS(RClipV(r), RSum(RClipV(r)))
Tol == "1e-9"
CloseM(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : RCloseSeq(a[k], b[k], Tol)
After(T, s, st) ==
  <<
  <<IF s.x = None THEN st.x = <<>> /\ st.nparts = -1
    ELSE st.x = T.vals[s.x] /\ st.nparts = N(s.x), "stored x coordinates">>,
  <<IF s.y = None THEN st.y = <<>> ELSE st.y = T.vals[s.y], "stored y coordinates">>,
  <<CloseM(st.water, [k \in 1..Len(T.meas) |-> RowN(T.meas[k])]), "stored waterfall">>,
  <<IF s.w = None THEN st.w = <<>> ELSE RCloseSeq(st.w, T.runs[s.w].w, Tol), "stored weights">>,
  <<IF s.d = None THEN st.d = <<>> ELSE RCloseSeq(st.d, T.runs[s.d].d, Tol), "stored discrepancies">>,
  <<IF s.d = None THEN TRUE ELSE CloseM(st.rec, T.runs[s.d].r), "stored recreated waterfall">> >>
RECURSIVE Walk(_, _, _)
Walk(T, k, s) ==
  IF k > Len(T.steps) THEN "ok:" \o T.class
  ELSE LET st == T.steps[k]
           o == [op |-> st.op, arg |-> st.arg]
           want == Outcome(s, o)
           s2 == Apply(s, o)
           v == FirstBad(<<<<IF want = "ok" THEN st.outcome = "ok" ELSE st.outcome # "ok" /\ want \in ToSet(st.mro),
                             "outcome of " \o st.op \o " " \o st.arg \o " expected " \o want>>>>
                         \o After(T, s2, st), "")
       IN IF v # "ok:" THEN v ELSE Walk(T, k + 1, s2)
TomoVerdicts(T) == IF T.kind = "new" THEN
    {IF (T.outcome = "ok") = (T.want = "ok") /\ (T.want = "ok" \/ T.want \in ToSet(T.mro))
     THEN "ok:constructor" ELSE "bad:constructor|" \o T.want}
  ELSE {Walk(T, 1, Fresh)}
=============================================================================
