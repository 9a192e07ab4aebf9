------------------------------- MODULE T_Image -------------------------------
EXTENDS TraceLoop, Image
Tol(T) == IF T.prec = "single" THEN "1e-5" ELSE "1e-10"
AbsSum(w) == RAdd("1e-300", RSum([k \in 1..Len(w) |-> RAbs(w[k])]))
\* kind "density": the plain histogram, with axes when T.axes
\* kind "image": clipped and normalised
ImVerdicts(T) ==
  LET ok == Inside(T.xs, T.ys, T.n)
      flat == FlatImage(T.xs, T.ys, T.w, T.n)
      total == RSum(RClipV(flat))
      tol == RMul(Tol(T), AbsSum(T.w))
  IN {IF T.kind = "noarea" THEN FirstBad(<< <<T.outcome = "error" /\ "InputError" \in ToSet(T.mro), "image without reconstruction area rejected">> >>, "no area")
     ELSE IF ~ok THEN FirstBad(<< <<T.outcome = "error", "particle outside the image rejected">> >>, "rejected")
     ELSE IF T.kind = "density"
     THEN FirstBad(<<
       <<T.outcome = "ok", "image is made">>,
       <<T.rows = T.n /\ T.cols = T.n, "shape of the image">>,
       <<RCloseSeq(T.got, flat, tol), "weight in each cell">>,
       <<RClose(RSum(T.got), RSum(T.w), RMul(tol, 10)), "total weight">>,
       <<T.axes => RCloseSeq(T.t, Axis(T.n, T.sx, T.dt), RMul("1e-9", RMul(T.n, T.dt))), "time axis">>,
       <<T.axes => RCloseSeq(T.e, Axis(T.n, T.sy, T.dE), RMul("1e-9", RMul(T.n, T.dE))), "energy axis">>,
       <<T.intact, "arguments unchanged">> >>, "density")
     ELSE IF RLe(total, tol) THEN "skip:empty image"
     ELSE FirstBad(<<
       <<T.outcome = "ok", "image is made">>,
       <<T.rows = T.n /\ T.cols = T.n, "shape of the image">>,
       <<RCloseSeq(T.got, Normalised(flat), RDiv(RMul(tol, 2), total)), "normalised weight in each cell">>,
       <<RClose(RSum(T.got), "1.0", IF T.prec = "single" THEN "1e-5" ELSE "1e-9"), "image sums to one">>,
       <<\A k \in 1..Len(T.got) : RLe("0.0", T.got[k]), "no negative cell">>,
       <<T.intact, "arguments unchanged">> >>, "image")}
=============================================================================
