----------------------------- MODULE T_Validity -----------------------------
EXTENDS TraceLoop, Validity, Frames
Refused(T, errs) == T.outcome = "error" /\ (errs \cap ToSet(T.mro)) # {}
As(T, e) == IF e = "ok" THEN T.outcome = "ok" ELSE Refused(T, {e})
MachineV(T) == FirstBad(<<
   <<MachineValid(T.m) => T.outcome = "ok", "valid settings refused">>,
   <<~MachineValid(T.m) => T.outcome # "ok", "invalid settings accepted">>,
   <<~MachineValid(T.m) => Refused(T, MachineErrors(T.m)), "kind of error">>,
   <<T.outcome # "ok" => T.before = T.after, "refused settings changed the object">> >>,
   T.via \o (IF MachineValid(T.m) THEN " accepted" ELSE " refused"))
FrameV(T) == FirstBad(<<
   <<As(T, IF FrameValid(T.f) THEN "ok" ELSE "InputError"), "frame settings">> >>, "frame")
ScalarV(T) == FirstBad(<<
   <<As(T, IF ScalarHolds(T.op, T.x, T.a, T.b) THEN "ok" ELSE T.err), "assert_" \o T.op>> >>, T.op)
ArrayV(T) == FirstBad(<<
   <<As(T, IF ArrayHolds(T.op, T.v, T.a, T.b) THEN "ok" ELSE T.err), "assert_" \o T.op>>,
   <<T.op \in {"array_not_equal", "only_valid_particles"} \/ T.off < 0 \/ T.outcome = "ok" \/ T.named = Offenders(T.op, T.v, T.a, T.b, T.off), "elements named by assert_" \o T.op>> >>, T.op)
ShapeV(T) == FirstBad(<<
   <<As(T, IF Len(T.shapes) < 2 THEN "AssertionError"
           ELSE IF \A i \in 1..Len(T.shapes) : T.shapes[i] = T.want THEN "ok" ELSE "UnequalArrayShapes"), "assert_" \o T.op>> >>, T.op)
IndexV(T) == FirstBad(<<
   <<As(T, IndexError(T.i, T.n, T.wrap)), "index accepted or refused">>,
   <<IndexError(T.i, T.n, T.wrap) = "NegativeIndexError" \/ "NegativeIndexError" \notin ToSet(T.mro), "kind of index error">>,
   <<T.outcome = "ok" => T.got = StartIndex(T.i, T.n), "index returned">> >>, "index")
FieldsV(T) == FirstBad(<<
   <<As(T, IF Len(T.missing) = 0 THEN "ok" ELSE T.err), "needed fields of " \o T.what>> >>, T.what)
StartV(T) == FirstBad(<<
   <<As(T, StartError(T.r, T.n)), "start profile accepted or refused">>,
   <<T.outcome = "ok" => StartIndex(T.r, T.n) \in ToSet(T.rows), "row of the start distribution">> >>, "start profile")
RECURSIVE Walk(_, _, _)
Walk(s, steps, k) ==
  IF k > Len(steps) THEN "ok:tracker history"
  ELSE LET st == steps[k] n == OpEffect(s, st.op) e == OpError(st.op)
       IN IF ~As(st, e) THEN "bad:request " \o st.op \o " expected " \o e
          ELSE IF st.ftn # n.ftn THEN "bad:fortran flag after " \o st.op
          ELSE IF st.charge # "unknown" /\ ~(IF n.charge = None \/ st.charge = None THEN st.charge = n.charge ELSE REq(st.charge, n.charge)) THEN "bad:profile charge after " \o st.op
          ELSE IF st.self # n.self THEN "bad:self-field flag after " \o st.op
          ELSE IF st.dist # n.dist THEN "bad:start distribution after " \o st.op
          ELSE Walk(n, steps, k + 1)
AreaV(T) == FirstBad(<<<<As(T, T.want), T.what>>>>, T.what)
RuleV(T) == FirstBad(<<<<As(T, RuleError(T.r)), T.r.rule \o " expected " \o RuleError(T.r)>>,
                      <<RuleError(T.r) # "ok" => T.before = T.after, T.r.rule \o ": refused request changed the object">>>>, T.r.rule)
VaVerdicts(T) == {CASE T.kind = "machine" -> MachineV(T) [] T.kind = "frame" -> FrameV(T) [] T.kind = "scalar" -> ScalarV(T)
   [] T.kind = "array" -> ArrayV(T) [] T.kind = "shape" -> ShapeV(T) [] T.kind = "index" -> IndexV(T)
   [] T.kind = "fields" -> FieldsV(T) [] T.kind = "start" -> StartV(T)
   [] T.kind = "tracker" -> Walk(NewTracker, T.steps, 1) [] T.kind = "area" -> AreaV(T) [] T.kind = "rule" -> RuleV(T)}
=============================================================================
