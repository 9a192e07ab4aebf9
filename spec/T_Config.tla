------------------------------ MODULE T_Config ------------------------------
(* T.steps: [op, outcome, prec, dtypes : name -> dtype, obj : dtype or      *)
(* "none", vals : name -> vector]; T.ref : name -> vector in double.        *)
EXTENDS TraceLoop, Config
Span(v) == RMaxSeq([i \in 1..Len(v) |-> RAbs(v[i])])
TolOf(prec, v) == RMul(IF prec = "float32" THEN "2e-3" ELSE "1e-10", Span(v))
BadType(st, s) == {n \in DOMAIN st.dtypes : st.dtypes[n] # s.prec}
BadVal(T, st, s) == {n \in DOMAIN st.vals : ~RCloseSeq(st.vals[n], T.ref[n], TolOf(s.prec, T.ref[n]))}
Step(T, st, s) == <<
  <<(st.outcome = "ok") = (COutcome(st.op) = "ok"), "outcome of " \o st.op>>,
  <<st.prec = s.prec, "active precision">>,
  <<st.device = "CPU", "device">>,
  <<BadType(st, s) = {}, "precision of the result|" \o ToString(BadType(st, s))>>,
  <<st.obj = s.obj, "precision of an existing object">>,
  <<BadVal(T, st, s) = {}, "value of the result|" \o ToString(BadVal(T, st, s))>>,
  <<s.obj = "none" \/ RCloseSeq(st.objval, T.ref["weight"], TolOf(s.obj, T.ref["weight"])), "result of an existing object">> >>
RECURSIVE Walk(_, _, _)
Walk(T, k, s) == IF k > Len(T.steps) THEN "ok:history"
  ELSE LET s2 == CApply(s, T.steps[k].op)
           v == FirstBad(Step(T, T.steps[k], s2), "")
       IN IF v # "ok:" THEN v ELSE Walk(T, k + 1, s2)
ConfigVerdicts(T) == {Walk(T, 1, CFresh)}
=============================================================================
