------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* The precision setting.  prec governs everything computed from now on;   *)
(* an existing tomography object keeps the precision it was made with      *)
(* (obj).  There is no GPU here: selecting it fails and changes nothing.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
COps == {"single", "double", "cpu", "gpu", "gpu-negative", "new"}
CFresh == [prec |-> "float64", obj |-> "none"]
COutcome(o) == IF o = "gpu" THEN "error" ELSE "ok"
CApply(s, o) == CASE o = "single" -> [s EXCEPT !.prec = "float32"]
                  [] o = "double" -> [s EXCEPT !.prec = "float64"]
                  [] o = "new" -> [s EXCEPT !.obj = s.prec]
                  [] OTHER -> s
=============================================================================
