----------------------------- MODULE TomoObject -----------------------------
(***************************************************************************)
(* A tomography object under any sequence of assignments and runs.         *)
(* Coordinates are named; N(v) is the number of particles of a named       *)
(* coordinate set.  The state is what the user can read back:              *)
(*   x, y   names of the stored coordinates ("none" when cleared)          *)
(*   w      the run that produced the stored weights                       *)
(*   d      the run that produced the stored discrepancies and waterfall   *)
(***************************************************************************)
EXTENDS Integers, Sequences
None == "none"
GoodX == {"a", "b", "f", "z"}       \* f holds fractions, z projects to nothing
N(v) == CASE v \in {"a", "f", "z", "ya"} -> 3 [] v \in {"b", "yb"} -> 5
Fresh == [x |-> None, y |-> None, w |-> None, d |-> None]
\* An operation is [op, arg]; its outcome is "ok" or the documented error.
Outcome(s, o) ==
  CASE o.op = "x" -> (IF o.arg \in GoodX \cup {None} THEN "ok"
                      ELSE IF o.arg \in {"neg", "over"} THEN "XPOutOfImageWidthError"
                      ELSE "CoordinateImportError")
    [] o.op = "y" -> (IF o.arg = None THEN "ok"
                      ELSE IF o.arg \in {"scalar", "yturned"} \/ s.x = None THEN "CoordinateImportError"
                      ELSE IF N(o.arg) = N(s.x) THEN "ok" ELSE "CoordinateImportError")
    [] OTHER -> (IF s.x = None THEN "CoordinateError" ELSE IF s.x = "z" THEN "RuntimeError" ELSE "ok")
RunId(s, o) == s.x \o "/" \o o.op \o "/" \o o.arg
Apply(s, o) ==
  IF Outcome(s, o) # "ok" THEN s
  ELSE CASE o.op = "x" -> [s EXCEPT !.x = o.arg]
         [] o.op = "y" -> [s EXCEPT !.y = o.arg]
         [] o.op \in {"run", "hybridm"} -> [s EXCEPT !.w = RunId(s, o), !.d = RunId(s, o)]
         [] o.op = "hybrid" -> [s EXCEPT !.d = RunId(s, o)]   \* returns its weights only (single bunch)
Ops == {[op |-> "x", arg |-> v] : v \in GoodX \cup {None, "dim1", "dim3", "prof", "neg", "over", "scalar"}}
  \cup {[op |-> "y", arg |-> v] : v \in {"ya", "yb", None, "scalar", "yturned"}}
  \cup {[op |-> "run", arg |-> n] : n \in {"1", "3"}}
  \cup {[op |-> "hybrid", arg |-> "2"]}
\* hybrid runs that fail midway leave partial discrepancies: not specified
Specified(s, o) == ~(o.op = "hybrid" /\ s.x = "z")
=============================================================================
