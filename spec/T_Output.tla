------------------------------ MODULE T_Output -------------------------------
EXTENDS TraceLoop, Output, Image
Is(T, want) == IF want = "ok" THEN T.outcome = "ok" ELSE T.outcome = "error" /\ want \in ToSet(T.mro)
\* kind "column": T.what, T.index, T.files = names written, T.lines = tokens of each line
Column(T, want) == FirstBad(<<
  <<T.outcome = "ok", T.what \o " is written">>,
  <<T.files = <<FileName(T.what, T.index)>>, "name of the file of the " \o T.what>>,
  <<Len(T.lines) = Len(want) /\ \A k \in 1..Len(T.lines) : Len(T.lines[k]) = 1, "one number per line">>,
  <<Len(T.lines) = Len(want) => \A k \in 1..Len(T.lines) : Printed(T.lines[k][1], want[k]), "numbers of the " \o T.what>> >>, T.what)
ImageColumn(T) ==
  LET flat == FlatImage(T.xs, T.ys, T.w, T.n)
      want == Normalised(flat)
  IN FirstBad(<<
  <<T.outcome = "ok", "image is written">>,
  <<T.files = <<FileName("image", T.index)>>, "name of the file of the image">>,
  <<Len(T.lines) = Len(want) /\ \A k \in 1..Len(T.lines) : Len(T.lines[k]) = 1, "one number per line">>,
  <<Len(T.lines) = Len(want) => \A k \in 1..Len(T.lines) : RNear(T.lines[k][1], want[k], "6e-8", "1e-13"), "cells of the image, row by row">> >>, "image from particles")
DiffV(T) == FirstBad(<<
  <<T.outcome = "ok", "discrepancies are written">>,
  <<T.files = <<FileName("difference", T.index)>>, "name of the file of discrepancies">>,
  <<Len(T.lines) = Len(T.values) /\ \A k \in 1..Len(T.lines) : Len(T.lines[k]) = 2, "one numbered discrepancy per line">>,
  <<Len(T.lines) = Len(T.values) => \A k \in 1..Len(T.lines) : REq(T.lines[k][1], k - 1) /\ Printed(T.lines[k][2], T.values[k]), "discrepancies">>,
  \* fixed columns, as the original program writes them (numbers of up to two digits)
  <<\A k \in 1..Len(T.ends) : k <= 100 => T.ends[k] = T.ends[1], "numbers of the discrepancies in one column">> >>, "difference")
InfoV(T) ==
  IF ~T.info.hasdE \/ ~T.info.hasi THEN FirstBad(<<
       <<Is(T, IF ~T.info.hasdE THEN "EnergyBinningError" ELSE "PhaseLimitsError")
         \/ (~T.info.hasdE /\ ~T.info.hasi /\ Is(T, "PhaseLimitsError")), "plot information without reconstruction area rejected">> >>, "no plot information")
  ELSE LET want == PlotInfo(T.info) IN FirstBad(<<
       <<T.outcome = "ok", "plot information is written">>,
       <<Len(T.pairs) = Len(want) /\ \A k \in 1..Len(T.pairs) : T.pairs[k][1] = want[k][1], "entries of the plot information in order">>,
       <<Len(T.pairs) = Len(want) => \A k \in 1..Len(T.pairs) : RNear(T.pairs[k][2], want[k][2], want[k][3], want[k][4]), "values of the plot information">> >>, "plotinfo")
StatusV(T) == FirstBad(<< <<T.lines = (IF T.self THEN <<<<T.start + 1, T.start + 1>>>> ELSE <<>>) \o Statuses(T.np, T.start, T.off), "status lines of the tracking">> >>, "status")
\* kind "figure": the presentation of a reconstruction: one picture, cell (i, j)
\* at time bin i and energy bin j, its projection on time beside the measured
\* profile scaled to sum one, its projection on energy, and the discrepancies.
\* curves: drawn lines with their axes, label and points.
Near(a, b) == Len(a) = Len(b) /\ \A k \in 1..Len(a) : RNear(a[k], b[k], "1e-9", "1e-12")
FigureV(T) ==
  LET n == Len(T.image)
      time == [i \in 1..n |-> RSum(T.image[i])]
      energy == [j \in 1..n |-> RSum([i \in 1..n |-> T.image[i][j]])]
      measured == LET s == RSum(T.prof) IN [i \in 1..n |-> RDiv(T.prof[i], s)]
      Curve(y) == {k \in 1..Len(T.curves) : Near(T.curves[k].y, y)}
      Named(y, l) == {k \in Curve(y) : T.curves[k].label = l}
  IN FirstBad(<<
  <<T.outcome = "ok", "reconstruction is shown">>,
  <<T.unchanged, "what is shown is not changed">>,
  <<Len(T.pictures) = 1 /\ Len(T.pictures[1]) = n /\ \A i \in 1..n : Near(T.pictures[1][i], T.image[i]), "image shown">>,
  <<Named(time, "reconstructed") # {}, "reconstructed profile shown">>,
  <<Named(measured, "measured") # {}, "measured profile shown">>,
  <<\E k \in Named(time, "reconstructed"), m \in Named(measured, "measured") : T.curves[k].axes = T.curves[m].axes /\ Near(T.curves[k].x, T.curves[m].x), "profiles shown over each other">>,
  <<\E k \in 1..Len(T.curves) : Near(T.curves[k].x, energy) /\ Near(T.curves[k].y, [i \in 1..n |-> i - 1]), "projection on energy shown">>,
  <<\E k \in Curve(T.diff) : Near(T.curves[k].x, [i \in 1..Len(T.diff) |-> i - 1]), "discrepancies shown">> >>, "figure")
OuVerdicts(T) == {CASE T.kind = "column" -> Column(T, IF T.what = "profile" THEN T.values[T.index + 1]
                                                       ELSE Flatten(T.values))
                    [] T.kind = "row" -> Column(T, T.values)
                    [] T.kind = "fromparticles" -> ImageColumn(T)
                    [] T.kind = "difference" -> DiffV(T) [] T.kind = "info" -> InfoV(T)
                    [] T.kind = "figure" -> FigureV(T)
                    [] T.kind = "status" -> StatusV(T)}
=============================================================================
