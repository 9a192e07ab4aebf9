----------------------------- MODULE T_Quality ------------------------------
EXTENDS TraceLoop, Quality
AbsMax(v) == RMaxSeq([k \in 1..Len(v) |-> RAbs(v[k])])
Fuzz(t, e) == RMul("2e-8", RMul(AbsMax(Mid(t)), AbsMax(Mid(e))))
Dip == "deviation from the standard deviation as known"
\* is x (compared with want, or else with the known deviation dev): "ok", "known", "bad"
Judge(x, want, dev, tol) == IF RNear(x, want, "1e-9", tol) THEN "ok" ELSE IF RNear(x, dev, "1e-9", tol) THEN "known" ELSE "bad"
\* the number of cells, or one more or less when a cumulated share meets the fraction
\* up to rounding (records marked exact have none)
RECURSIVE CumNear(_, _, _, _, _)
CumNear(s, k, acc, lim, tol) == k <= Len(s) /\ LET a == RAdd(acc, s[k]) IN RClose(a, lim, tol) \/ CumNear(s, k + 1, a, lim, tol)
FracOk(T, i) ==
  LET want == Cells(T.d, T.fracs[i]) tot == RSum(Flat(T.d)) area == CellArea(T.t, T.e)
      edge == ~T.exact /\ CumNear(Sorted(T.d), 1, "0.0", RMul(RDiv(T.fracs[i], "100.0"), tot), RMul("1e-10", tot))
      Is(n) == RNear(T.frac[i], RMul(n, area), "1e-9", "0")
  IN Is(want) \/ (edge /\ (Is(want + 1) \/ Is(want - 1)))
ImageV(T) ==
  LET pt == ProjT(T.d) pe == ProjE(T.d)
      st == Sigma(pt, T.t) se == Sigma(pe, T.e)
      kt == SigmaOwnShare(pt, T.t) ke == SigmaOwnShare(pe, T.e)
      fz == Fuzz(T.t, T.e)
      j1 == Judge(T.rms, EmitRms(st, se), EmitRms(kt, ke), fz)
      j2 == Judge(T.pprms, EmitRms(st, se), EmitRms(kt, ke), fz)
      j3 == Judge(T.dpp, Dpp(se, T.en, T.mass), Dpp(ke, T.en, T.mass), "1e-11")
      j4 == Judge(T.ppdpp, Dpp(se, T.en, T.mass), Dpp(ke, T.en, T.mass), "1e-11")
      area == CellArea(T.t, T.e)
      first == FirstBad(<<
        <<T.outcome = "ok", "figures are computed">>,
        <<T.after = T.d, "given image unchanged">>,
        <<T.refused, "a share outside 0..100 per cent is refused">>,
        <<\A i \in 1..Len(T.fracs) : FracOk(T, i), "fractional emittance">>,
        <<\A i, k \in 1..Len(T.fracs) : RLe(T.fracs[i], T.fracs[k]) => RLe(RMul(T.frac[i], IF RLt(area, "0") THEN "-1" ELSE "1"), RAdd(RMul(T.frac[k], IF RLt(area, "0") THEN "-1" ELSE "1"), RMul("1e-9", RAbs(area)))), "larger fraction, smaller emittance">>,
        <<REq(T.e90, T.pp90), "90% emittance of the summary">>,
        <<REq(T.e90, T.frac[1]), "90% emittance">>,
        <<j1 # "bad", "rms emittance">>, <<j2 # "bad", "rms emittance of the summary">>,
        <<j3 # "bad", "momentum spread">>, <<j4 # "bad", "momentum spread of the summary">>,
        <<RNear(T.rms2, EmitRms(T.s1, T.s2), "1e-9", "0"), "rms emittance of given deviations">>,
        <<RNear(T.dpp2, Dpp(T.s2, T.en, T.mass), "1e-9", "1e-11"), "momentum spread of a given deviation">> >>, "figures")
  IN {first} \cup (IF "known" \in {j1, j2, j3, j4} /\ first = "ok:figures" THEN {"known:rms-mean-not-summed"} ELSE {})
QuVerdicts(T) == ImageV(T)
=============================================================================
