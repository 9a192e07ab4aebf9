------------------------------ MODULE T_Frames ------------------------------
EXTENDS TraceLoop, Frames
Mean(v) == RDiv(RSum(v), Len(v))
BaselineOf(row, pct) == LET k == RInt(RMul(pct, Len(row))) IN RDiv(RSum(SubSeq(row, 1, k)), k)
RebinRow(v, r) == [k \in 1..NewBins(Len(v), r) |->
   LET g == GroupOf(Len(v), r, k)
       lo == CHOOSE x \in g : \A y \in g : x <= y
       hi == CHOOSE x \in g : \A y \in g : x >= y
   IN RDiv(RMul(r, RSum(SubSeq(v, lo, hi))), hi - lo + 1)]
RowClose(a, b, scale) == Len(a) = Len(b) /\ RCloseSeq(a, b, RMul("1e-9", scale))
MatClose(a, b, scale) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RowClose(a[i], b[i], scale)
Span(m) == RMax("1e-300", RMaxSeq([i \in 1..Len(m) |-> RMaxSeq([j \in 1..Len(m[i]) |-> RAbs(m[i][j])])]))
Is(T, want) == IF want = "ok" THEN T.outcome = "ok" ELSE T.outcome = "error" /\ want \in ToSet(T.mro)

\* kind "layout": Frames.to_waterfall; T.extra is the surplus of samples given.
LayoutV(T) ==
  LET want == IF T.extra # 0 THEN "RawDataImportError" ELSE IF FrameValid(T.f) THEN "ok" ELSE "InputError"
  IN FirstBad(<<
    <<Is(T, want) \/ (T.extra # 0 /\ ~FrameValid(T.f) /\ Is(T, "InputError")), "outcome of to_waterfall expected " \o want>>,
    <<T.nprofs = NProfs(T.f), "number of profiles announced">>,
    <<T.nbins = NBins(T.f), "number of bins announced">>,
    <<want = "ok" => T.wf = RawToWaterfall(T.f, T.raw), "samples of the waterfall">>,
    <<T.rawafter = T.raw, "raw data unchanged">>,
    <<IF T.extra = 0 THEN T.setter = "ok" ELSE "RawDataImportError" \in ToSet(T.settermro), "raw_data setter">>,
    <<IF T.extra = 0 THEN T.stored = T.raw ELSE T.stored = T.prior, "stored raw data">> >>,
    IF want = "ok" THEN "waterfall" ELSE "rejected layout")

\* kind "baseline"
BaseV(T) == IF T.outcome # "ok" THEN FirstBad(<<<<Is(T, "InputError") /\ (RLt(T.pct, "0.0") \/ RLt("1.0", T.pct)), "share of the profile rejected">>>>, "rejected share")
  ELSE FirstBad(<<<<RLe("0.0", T.pct) /\ RLe(T.pct, "1.0"), "share of the profile accepted">>, <<RNear(T.got, BaselineOf(T.row, T.pct), "1e-9", RMul("1e-12", Span(<<T.row>>))), "baseline">>>>, "baseline")

\* kind "rebin"
RebinV(T) ==
  LET want == [i \in 1..Len(T.wf) |-> RebinRow(T.wf[i], T.r)]
  IN FirstBad(<<
    <<Len(T.got) = Len(T.wf), "rebinned waterfall returned">>,
    <<\A i \in 1..Len(T.got) : Len(T.got[i]) = NewBins(Len(T.wf[i]), T.r), "shape of the rebinned waterfall">>,
    <<MatClose(T.got, want, RMul(T.r, Span(T.wf))), "rebinned values">>,
    <<(Len(T.wf[1]) % T.r = 0) => RowClose([i \in 1..Len(T.wf) |-> RSum(T.got[i])],
                                           [i \in 1..Len(T.wf) |-> RSum(T.wf[i])], RMul(Len(T.wf[1]), Span(T.wf))), "charge conserved">>,
    <<T.r = 1 => T.got = T.wf, "factor one changes nothing">>,
    <<T.hasdt => T.dt # "none" /\ RNear(T.dt, RMul(T.dt0, T.r), "1e-12", "0"), "bin width">>,
    <<~T.hasdt => T.dt = "none", "bin width not asked for">>,
    <<T.hassx => T.sx # "absent" /\ RNear(T.sx, RDiv(T.sx0, T.r), "1e-12", "0"), "synchronous bin">>,
    <<~T.hassx => T.sx = "absent", "synchronous bin not asked for">>,
    <<T.after = T.wf, "given waterfall unchanged">> >>, "rebin")

\* kind "profiles": raw_data_to_profiles.
ProfV(T) ==
  LET base == BaselineOf(T.wf[T.ref + 1], "0.05")
      reb == [i \in 1..Len(T.wf) |-> RebinRow([j \in 1..Len(T.wf[i]) |-> RSub(T.wf[i][j], base)], T.r)]
      want == [i \in 1..Len(reb) |-> RClipV(reb[i])]
      scale == RMul(T.r, Span(T.wf))
      empty == \A i \in 1..Len(want) : RLe(RSum(want[i]), "0.0")
      edge == RLe(RMaxSeq([i \in 1..Len(want) |-> RMaxSeq(want[i])]), RMul("1e-9", scale))
      sx == IF T.sxarg = "none" THEN T.sx0 ELSE T.sxarg
  IN IF edge THEN "skip:nothing left above the baseline"
     ELSE FirstBad(<<
       <<T.outcome = "ok", "profiles are created">>,
       <<MatClose(T.got, want, scale), "treated waterfall">>,
       <<\A i \in 1..Len(T.got) : \A j \in 1..Len(T.got[i]) : RLe("0.0", T.got[i][j]), "no negative sample">>,
       <<T.mnbins = Len(want[1]), "number of bins of the machine">>,
       <<RNear(T.msy, RDiv(Len(want[1]), 2), "1e-12", "0"), "synchronous energy row of the machine">>,
       <<T.mnprofs = Len(T.wf), "number of profiles of the machine">>,
       <<RNear(T.mdt, RMul(T.sampling, T.r), "1e-12", "0"), "bin width of the machine">>,
       <<RNear(T.msx, RDiv(sx, T.r), "1e-12", "0"), "synchronous bin of the machine">>,
       <<RNear(T.psampling, T.sampling, "1e-12", "0"), "sampling time kept">>,
       <<RNear(T.charge, RDiv(RMul(RSum(T.got[T.ref + 1]), T.sampling), RMul("1.602176634e-19", T.pickup)), "1e-9", "0"), "profile charge">>,
       <<T.wfafter = T.wf, "raw waterfall unchanged">>,
       <<T.fit = "none" \/ (T.fitsx = T.fit /\ T.fitlow = T.fitlow0 /\ T.fitup = T.fitup0 /\ T.fitsx2 = T.fit), "loaded fit">> >>, "profiles")

FrVerdicts(T) == {CASE T.kind = "layout" -> LayoutV(T) [] T.kind = "baseline" -> BaseV(T)
                    [] T.kind = "rebin" -> RebinV(T) [] T.kind = "profiles" -> ProfV(T)}
=============================================================================
