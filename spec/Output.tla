------------------------------- MODULE Output --------------------------------
(***************************************************************************)
(* The text output: one number per line (profiles, images row by row,      *)
(* self-fields), numbered discrepancies, the plot information, the status  *)
(* lines of the tracking.                                                  *)
(***************************************************************************)
EXTENDS Num
Pad3(n) == IF n < 10 THEN "00" \o ToString(n) ELSE IF n < 100 THEN "0" \o ToString(n) ELSE ToString(n)
\* files count profiles from one
FileName(what, index) == CASE what = "vself" -> "vself.data"
                           [] what = "profile" -> "profile" \o Pad3(index + 1) \o ".data"
                           [] what = "image" -> "image" \o Pad3(index + 1) \o ".data"
                           [] what = "difference" -> "d" \o Pad3(index + 1) \o ".data"
Printed(got, want) == RNear(got, want, "5.01e-8", "1e-315")   \* seven decimals
Flatten(m) == FoldLeft(LAMBDA a, b : a \o b, <<>>, m)
\* plot information: key, value, relative and absolute precision of the print
PlotInfo(i) == LET r == "( " \o ToString(i.film + 1) \o ")" IN <<
  <<"profilecount", i.nprofiles, "0", "0">>, <<"profilelength", i.nbins, "0", "0">>,
  <<"dtbin", i.dtbin, "5.01e-5", "0">>, <<"dEbin", i.dEbin, "5.01e-5", "0">>,
  <<"eperimage", i.charge, "5.01e-4", "0">>,
  <<"xat0", i.sx, "0", "5.01e-4">>, <<"yat0", i.sy, "0", "5.01e-4">>,
  <<"tangentfootl", IF i.fitted THEN i.low ELSE "0.0", "0", "5.01e-4">>,
  <<"tangentfootu", IF i.fitted THEN i.up ELSE "0.0", "0", "5.01e-4">>,
  <<"fit xat0", IF i.fitted THEN i.fitsx ELSE "0.0", "0", "5.01e-4">>,
  <<"phi0" \o r, i.phi0, "0", "5.01e-5">>,
  <<"imin" \o r, i.imin, "0", "0">>, <<"imax" \o r, i.imax, "0", "0">> >>
\* status lines of tracking from profile r among n: upwards, then downwards
\* (a tracking with self-fields first reports the profile it starts from)
\* when it starts some turns off the profile (off), that profile is reached too
Statuses(n, r, off) ==
  LET up == IF off < 0 THEN r ELSE r + 1      \* first profile reached upwards and downwards
      down == IF off > 0 THEN r ELSE r - 1
  IN [k \in 1..n-up |-> <<r + 1, up + k>>] \o [k \in 1..down+1 |-> <<r + 1, down + 2 - k>>]
=============================================================================
