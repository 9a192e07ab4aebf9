----------------------------- MODULE T_Profiles ------------------------------
EXTENDS TraceLoop, ProfilesObj, SelfField
Is(T, want) == IF want = "ok" THEN T.outcome = "ok" ELSE T.outcome = "error" /\ want \in ToSet(T.mro)
Span(m) == RMax("1e-300", RMaxSeq([i \in 1..Len(m) |-> RMaxSeq([j \in 1..Len(m[i]) |-> RAbs(m[i][j])])]))
MClose(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Len(a[i]) = Len(b[i]) /\ RCloseSeq(a[i], b[i], RMul(tol, Span(b)))
ClipM(m) == [i \in 1..Len(m) |-> RClipV(m[i])]
ChargeOf(T, w) == RDiv(RMul(RSum(ClipM(T.vals[w])[T.ref + 1]), T.sampling), RMul(QElem, T.pickup))
ChargeIs(T, ch, got) == IF ch = "none" THEN got = "none"
   ELSE got # "none" /\ RNear(got, IF ch = "given" THEN T.given ELSE ChargeOf(T, ch), "1e-9", "0")
DsOf(T, d) == CASE d \in {"fA", "fB"} -> T.vals[d]
   [] d = "sgA" -> Filtered(ClipM(T.vals["A"])) [] d = "sgB" -> Filtered(ClipM(T.vals["B"]))
   [] d = "sgN" -> Filtered(ClipM(T.vals["N"]))
   [] OTHER -> LET w == CASE d = "inA" -> "A" [] d = "inB" -> "B" [] d = "inN" -> "N"
               IN [i \in 1..Len(T.vals[w]) |-> [j \in 1..Len(T.vals[w][i]) |-> RAdd("1.0", RMul("0.5", RMax("0.0", T.vals[w][i][j])))]]
\* kind "history": T.new, T.steps = [op, arg, outcome, mro, w, nb, charge, ds, vsame]
\* where vsame says that the self-fields held are those after the previous step.
StateAfter(T, k) == FoldLeft(LAMBDA s, o : After(s, o), T.new, SubSeq(T.steps, 1, k))
StepOk(T, k) ==
  LET s == T.steps[k]
      pre == StateAfter(T, k - 1)
      post == StateAfter(T, k)
      want == Outcome(pre, s)
  IN FirstBad(<<
    <<Is(s, want), "outcome of an operation on profiles, expected " \o want>>,
    <<s.nb = post.nb, "number of bins of the machine in step with the waterfall">>,
    <<MClose(s.w, ClipM(T.vals[post.w]), "1e-12"), "waterfall held">>,
    <<ChargeIs(T, post.charge, s.charge), "profile charge">>,
    <<IF post.ds = "none" THEN s.ds = <<>> ELSE MClose(s.ds, DsOf(T, post.ds), "1e-9"), "filtered profiles held">>,
    <<(want # "ok" \/ s.op # "self") => s.vsame, "self-fields unchanged">>,
    <<(post.vs # "none") => s.hasv, "self-fields present">>,
    <<(want = "ok" /\ s.op = "self") => (s.vrows = Len(s.w) - 1 /\ s.vcols > s.nb), "shape of the self-fields">>,
    <<s.intact, "arguments unchanged">> >>, "")
HistoryV(T) ==
  LET bad == {k \in 1..Len(T.steps) : StepOk(T, k) # "ok:"}
  IN IF bad = {} THEN "ok:history of a profiles object"
     ELSE StepOk(T, CHOOSE k \in bad : \A m \in bad : k <= m)
\* kind "new": construction; T.want
NewV(T) == FirstBad(<< <<Is(T, T.want), "construction of profiles, expected " \o T.want>>,
    <<T.nb = T.wantnb, "number of bins of the machine after construction">> >>, "construction")
\* kind "self": one calculation of self-fields.
SelfV(T) ==
  LET n == Len(T.wf)
      nb == Len(T.wf[1])
      sfc == [i \in 1..n |-> SelfFieldCoef(T.m, T.g, T.zw, T.dtbin, T.omega[i], T.beta[i])]
      ds == IF T.filter = "none" THEN Filtered(T.wf) ELSE T.given
      drad == RMul(RMul(T.m.hn, T.omwrap), T.dtbin)
      turns == RDiv(RMul(nb, drad), TwoPI)
      wrap == RMul(RCeil(turns), TwoPI)
      cells == RDiv(T.phiwrap, drad)
      v == [i \in 1..n-1 |-> [j \in 1..T.vcols |-> SelfVolt(T.charge, sfc, ds, i, j)]]
      dspan == RMax(Span(ds), RDiv("1e-3", nb))
      scale == RMul(RMul(T.charge, RMaxSeq([i \in 1..n |-> RAbs(sfc[i])])), dspan)
  IN FirstBad(<<
    <<T.outcome = "ok", "self-fields are calculated">>,
    <<\A i \in 1..n : RNear(T.sfc[i], sfc[i], "1e-9", RMul("1e-12", RMaxSeq([k \in 1..n |-> RAbs(sfc[k])]))), "self-field coefficients">>,
    <<Len(T.ds) = n /\ \A i \in 1..n : RCloseSeq(T.ds[i], ds[i], RMul("1e-9", dspan)), "filtered profiles">>,
    <<NearInt(turns) \/ RNear(T.phiwrap, wrap, "1e-12", "0"), "phase of a whole number of RF periods">>,
    <<RLe(RMul(turns, "0.999999999"), RDiv(T.phiwrap, TwoPI)) /\ NearInt(RDiv(T.phiwrap, TwoPI)) /\ RLt(RDiv(T.phiwrap, TwoPI), RAdd(turns, "1.0000001")), "the wrap covers the profile">>,
    <<NearInt(cells) \/ T.wraplen = RInt(RCeil(cells)), "bins of the wrap">>,
    <<T.vrows = n - 1 /\ T.vcols = T.wraplen + 1, "shape of the self-fields">>,
    <<\A i \in 1..n-1 : RCloseSeq(T.v[i], v[i], RMul("1e-9", scale)), "self-field voltages">>,
    <<T.wfafter = T.wf, "waterfall unchanged">> >>, IF RLe(scale, "0.0") THEN "no self-field" ELSE "self-fields")
\* kind "track": tracking with self-fields, T.dt turns between profiles; rows are
\* image coordinates of one particle set.  T.v: self-fields, T.cell: phase of
\* a bin at each turn (entry t + 1 is turn t).  The start is T.off turns from the
\* turn of profile T.start (0-based).
Entry(T, k) == (k - 1) * T.dt + 1           \* entry of the turn of profile k
From(T, k, p) == [ph |-> PhaseAt(T, T.x[k][p], Entry(T, k)), e |-> Energy(T, T.y[k][p]), unsure |-> FALSE]
Wraps(T, d, k) == RDiv(d, RDiv(T.phiwrap, T.cell[Entry(T, k)]))
\* does what was recorded at profile k agree with the state s?
Agrees(T, s, k, p) ==
  \/ s.unsure
  \/ /\ RClose(Energy(T, T.y[k][p]), s.e, RMul("1e-7", T.escale))
     /\ NearInt(Wraps(T, RSub(T.x[k][p], RSub(RDiv(RAdd(s.ph, T.phi0[Entry(T, k)]), T.cell[Entry(T, k)]), T.xorigin)), k))
     /\ RLe("-1e-6", T.x[k][p]) /\ RLe(Wraps(T, T.x[k][p], k), "1.000001")
Turn0(T) == T.start * T.dt + T.off
Above(T) == (Turn0(T) \div T.dt) + 1          \* first profile above the start (0-based)
Below(T) == (Turn0(T) + T.dt - 1) \div T.dt - 1
Given(T, p) == [ph |-> T.ph0[p], e |-> T.en0[p], unsure |-> FALSE]
FirstUp(T, p) ==
  LET k == Above(T)
      Fits(back) == Agrees(T, FoldLeft(LAMBDA s, i : UpTurn(T, k, back, s, Turn0(T) + i), Given(T, p), [i \in 1..(k * T.dt - Turn0(T)) |-> i]), k + 1, p)
  IN IF Fits(0) THEN "ok" ELSE IF Fits(1) THEN "known:self-field-bin-before-upwards" ELSE "coordinates after the first turns up"
FirstDown(T, p) ==
  LET k == Below(T) + 1
      Fits(sign) == Agrees(T, FoldLeft(LAMBDA s, i : DownTurn(T, k, sign, s, Turn0(T) + 1 - i), Given(T, p), [i \in 1..(Turn0(T) - Below(T) * T.dt) |-> i]), k, p)
  IN IF Fits(-1) THEN "ok" ELSE IF Fits(1) THEN "known:self-field-added-downwards" ELSE "coordinates after the first turns down"
StepUp(T, k, p) ==
  LET Fits(back) == Agrees(T, FoldLeft(LAMBDA s, i : UpTurn(T, k, back, s, Entry(T, k) + i - 1), From(T, k, p), [i \in 1..T.dt |-> i]), k + 1, p)
  IN IF Fits(0) THEN "ok" ELSE IF Fits(1) THEN "known:self-field-bin-before-upwards" ELSE "coordinates after the turns up to a profile"
StepDown(T, k, p) ==
  LET Fits(sign) == Agrees(T, FoldLeft(LAMBDA s, i : DownTurn(T, k, sign, s, Entry(T, k + 1) - i), From(T, k + 1, p), [i \in 1..T.dt |-> i]), k, p)
  IN IF Fits(-1) THEN "ok" ELSE IF Fits(1) THEN "known:self-field-added-downwards" ELSE "coordinates after the turns down to a profile"
TrackV(T) ==
  LET n == Len(T.x)
      all == 1..Len(T.ph0)
      steps == {StepUp(T, kp[1], kp[2]) : kp \in (Above(T)+1..n-1) \X all}
               \cup {StepDown(T, kp[1], kp[2]) : kp \in (1..Below(T)) \X all}
               \cup {FirstUp(T, p) : p \in all}
               \cup (IF Below(T) >= 0 THEN {FirstDown(T, p) : p \in all} ELSE {})
      known == steps \cap {"known:self-field-bin-before-upwards", "known:self-field-added-downwards"}
      bad == steps \ (known \cup {"ok"})
      \* the start itself: where the given particles are
      w == [p \in 1..Len(T.ph0) |-> BinAt(T, T.ph0[p], Entry(T, T.start + 1))]
      started == T.off # 0 \/ \A p \in 1..Len(T.ph0) : /\ RClose(Energy(T, T.y[T.start + 1][p]), T.en0[p], RMul("1e-9", T.escale))
                                          /\ (NearInt(Wraps(T, w[p], T.start + 1)) \/ RClose(T.x[T.start + 1][p], w[p], "1e-6"))
  IN IF Len(T.x[1]) # Len(T.ph0) THEN {"bad:number of particles"}
     ELSE IF ~started THEN {"bad:coordinates at the start"}
     ELSE IF bad # {} THEN {"bad:" \o (CHOOSE b \in bad : TRUE)}
     ELSE {"ok:tracking with self-fields"} \cup known
PrVerdicts(T) == IF T.kind = "track" THEN TrackV(T)
  ELSE {CASE T.kind = "history" -> HistoryV(T) [] T.kind = "new" -> NewV(T) [] T.kind = "self" -> SelfV(T)}
=============================================================================
