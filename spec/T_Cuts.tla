------------------------------- MODULE T_Cuts -------------------------------
EXTENDS TraceLoop, Cuts
Is(T, want) == IF want = "ok" THEN T.outcome = "ok" ELSE T.outcome = "error" /\ want \in ToSet(T.mro)
ScaleOf(w) == RMax("1e-300", RMaxSeq([i \in 1..Len(w) |-> RMaxSeq([j \in 1..Len(w[i]) |-> RAbs(w[i][j])])]))
\* get_cuts; a second call with everything scaled up must agree
CutsV(T) ==
  IF T.outcome = "ok" /\ ~T.exact /\ Close(T.w, T.thr) THEN FirstBad(<<
      <<0 <= T.left /\ T.left <= T.right /\ T.right <= NB(T.w), "cuts outside the data">>,
      <<T.after = T.w, "given waterfall unchanged">> >>, "change at the threshold")
  ELSE FirstBad(<<
      <<T.outcome = "ok", "cuts are found">>,
      <<0 <= T.left /\ T.left < T.right /\ T.right <= NB(T.w), "cuts outside the data">>,
      <<\A k \in Active(T.w, T.thr) : T.left <= k - 1 /\ k < T.right, "beam cut off">>,
      <<T.left = CutLeft(T.w, T.thr, T.mg), "left cut">>,
      <<T.right = CutRight(T.w, T.thr, T.mg), "right cut">>,
      <<T.after = T.w, "given waterfall unchanged">> >>, IF Active(T.w, T.thr) = {} THEN "nothing to cut" ELSE "cuts")
\* cut_waterfall
CutV(T) == LET ok == CutOk(NB(T.w), T.l, T.r) IN FirstBad(<<
   <<Is(T, IF ok THEN "ok" ELSE "ValueError"), "cut accepted or refused">>,
   <<ok => Len(T.got) = Len(T.w) /\ \A i \in 1..Len(T.got) : T.got[i] = CutRow(T.w[i], T.l, T.r), "bins kept by the cut">>,
   <<T.after = T.w, "given waterfall unchanged">> >>, IF ok THEN "cut" ELSE "refused cut")
\* filter_profiles; coordinates are (particle, profile)
FilterV(T) ==
  LET k == Kept(T.w) shift == Len(T.w) - Len(k)
      want == IF T.hasx # T.hasy THEN "ValueError" ELSE IF T.hasrec /\ T.rec - shift < 0 THEN "ValueError" ELSE "ok"
  IN IF T.hasx = T.hasy /\ ShareEdge(T.w) THEN "skip:a profile exactly at the limit"
     ELSE FirstBad(<<
       <<Is(T, want), "filter accepted or refused">>,
       <<want = "ok" => Len(T.got) = Len(k), "profiles kept">>,
       <<want = "ok" => \A a \in 1..Len(k) : RCloseSeq(T.got[a], RDivS(T.w[k[a]], Total(T.w)), RMul("1e-12", RDiv(ScaleOf(T.w), RAbs(Total(T.w))))), "values of the kept profiles">>,
       <<want = "ok" => T.nout = 1 + (IF T.hasx THEN 2 ELSE 0) + (IF T.hasrec THEN 1 ELSE 0), "number of results">>,
       <<(want = "ok" /\ T.hasx) => T.gx = [p \in 1..Len(T.x) |-> [a \in 1..Len(k) |-> T.x[p][k[a]]]], "x coordinates of the kept profiles">>,
       <<(want = "ok" /\ T.hasy) => T.gy = [p \in 1..Len(T.y) |-> [a \in 1..Len(k) |-> T.y[p][k[a]]]], "y coordinates of the kept profiles">>,
       <<(want = "ok" /\ T.hasrec) => T.grec = T.rec - shift, "shifted profile to reconstruct">>,
       <<T.after = T.w, "given waterfall unchanged">> >>, IF want = "ok" THEN "filter" ELSE "refused filter")
CuVerdicts(T) == {CASE T.kind = "cuts" -> CutsV(T) [] T.kind = "cut" -> CutV(T) [] T.kind = "filter" -> FilterV(T)}
=============================================================================
