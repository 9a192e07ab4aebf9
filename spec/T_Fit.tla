------------------------------- MODULE T_Fit --------------------------------
EXTENDS TraceLoop, Fit
Ok(x, y) == RNear(x, y, "1e-6", "1e-6")
FitV(T) ==
  LET p == T.p
      dom == FitDomain(p)
      low == FootLow(p) up == FootUp(p)
      len == RMul(RSub(up, low), RadPerBin(T.m))
      phil == RSub(T.m.phi0, RMul(RSub(T.fit, T.low), RadPerBin(T.m)))
      slope == PhaseLowSlope(T.m, phil, len)
  IN IF ~dom THEN "skip:edges not inside the profile"
     ELSE IF \E k \in 1..Len(p) : RClose(p[k], RMul("0.15", RMaxSeq(p)), RMul("1e-9", RMaxSeq(p))) THEN "skip:bin exactly at the threshold"
     ELSE IF RLt(RAbs(Slope5(p, TanLow(p) - 2)), RMul("1e-6", RMaxSeq(p))) \/ RLt(RAbs(Slope5(p, TanUp(p) - 1)), RMul("1e-6", RMaxSeq(p))) THEN "skip:flat edge"
     ELSE IF T.outcome # "ok" /\ "RuntimeError" \in ToSet(T.mro) /\ ~PhaseFound(T.m, len) THEN "skip:no phase fits a bunch of this length"
     ELSE FirstBad(<<
       <<T.outcome = "ok", "fit succeeds">>,
       <<Ok(T.low, low), "lower bunch limit">>,
       <<Ok(T.up, up), "upper bunch limit">>,
       <<RFinite(T.fit), "synchronous bin finite">>,
       <<RLe(RAbs(PhaseLow(T.m, phil, len)), RMul("3e-4", RAdd(RAbs(slope), RMul("1e-6", RAbs(T.m.v1))))), "synchronous bin">>,
       <<T.pafter = T.p, "given waterfall unchanged">>,
       <<T.others = "same", "other ways to call the fit agree">>,
       <<T.hasshift => Ok(T.sfit, RAdd(T.fit, T.shift)) /\ Ok(T.slow, RAdd(T.low, T.shift)) /\ Ok(T.sup, RAdd(T.up, T.shift)), "shifted and scaled profile">> >>,
       IF T.hasshift THEN "fit and shifted fit" ELSE "fit")
FiVerdicts(T) == {FitV(T)}
=============================================================================
