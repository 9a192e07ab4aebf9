---------------------------- MODULE T_Callbacks ----------------------------
(* T.turns; T.steps: [op, n, fail, calls, raised, same, thread, stored,     *)
(* ret]; T.ref: key -> result vectors without a callback.                   *)
EXTENDS TraceLoop, Callbacks
Near(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) :
                Len(a[k]) = Len(b[k]) /\ RCloseSeq(a[k], b[k], RAdd("1e-300", RMul("1e-11", RMaxSeq([j \in 1..Len(b[k]) |-> RAbs(b[k][j])]))))
RECURSIVE Walk(_, _, _)
Walk(T, k, stored) ==
  IF k > Len(T.steps) THEN "ok:history"
  ELSE LET st == T.steps[k]
           o == [op |-> st.op, n |-> st.n, fail |-> st.fail]
           now == IF Fails(o, T.turns) \/ o.op = "track" THEN stored ELSE Key(o)
           v == FirstBad(<<
             <<st.calls = Calls(o, T.turns), "callbacks of " \o st.op>>,
             <<st.raised = Fails(o, T.turns), "exception of the callback propagates from " \o st.op>>,
             <<st.raised => st.same, "the exception is the one raised in " \o st.op>>,
             <<st.thread, "callbacks come from the calling thread">>,
             <<st.raised \/ Near(st.ret, T.ref[Key(o)]), "result of " \o st.op>>,
             <<IF now = "none" THEN st.stored = <<>> ELSE Near(st.stored, T.ref[now]), "stored result after " \o st.op>> >>, "")
       IN IF v # "ok:" THEN v ELSE Walk(T, k + 1, now)
CbVerdicts(T) == {Walk(T, 1, "none")}
=============================================================================
