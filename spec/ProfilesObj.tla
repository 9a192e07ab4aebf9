----------------------------- MODULE ProfilesObj -----------------------------
(***************************************************************************)
(* A Profiles object and the machine it belongs to.  Waterfalls are named: *)
(* "A" (width WA), "B" (width WB), "N" (width WA, with negative samples).   *)
(* st = [w, nb, charge, ds, vs]: the waterfall held, the number of bins of *)
(* the machine, where the profile charge comes from, which filtered         *)
(* profiles and self-fields are held.                                       *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS WA, WB
Width(w) == IF w = "B" THEN WB ELSE WA
New(w, charge) == [w |-> w, nb |-> Width(w), charge |-> charge, ds |-> "none", vs |-> "none"]
\* Error of an operation in a state, or "ok".
Outcome(st, o) ==
  CASE o.op = "wf" -> (CASE o.arg \in {"A", "B", "N"} -> "ok"
                        [] o.arg \in {"scalar", "count"} -> "WaterfallError"
                        [] o.arg \in {"zero", "negative"} -> "WaterfallReducedToZero")
    [] o.op = "charge" -> "ok"
    [] o.op = "self" ->
         IF st.charge = "none" THEN "ProfileChargeNotCalculated"
         ELSE (CASE o.arg \in {"default", "infilter"} -> "ok"
                [] o.arg \in {"fA", "fAin"} -> (IF Width(st.w) = WA THEN "ok" ELSE "FilteredProfilesError")
                [] o.arg = "fB" -> (IF Width(st.w) = WB THEN "ok" ELSE "FilteredProfilesError")
                [] o.arg \in {"fscalar", "inscalar", "inshape"} -> "FilteredProfilesError")
After(st, o) ==
  IF Outcome(st, o) # "ok" THEN st
  ELSE CASE o.op = "wf" -> [st EXCEPT !.w = o.arg, !.nb = Width(o.arg)]
         [] o.op = "charge" -> [st EXCEPT !.charge = st.w]
         [] o.op = "self" ->
              LET d == CASE o.arg = "default" -> "sg" \o st.w
                         [] o.arg = "infilter" -> "in" \o st.w
                         [] o.arg = "fAin" -> "fA"   \* filtered profiles and a filter: the profiles are used
                         [] OTHER -> o.arg
              IN [st EXCEPT !.ds = d, !.vs = d \o "/" \o st.charge]
Ops == {[op |-> "wf", arg |-> a] : a \in {"A", "B", "N", "scalar", "count", "zero", "negative"}}
       \cup {[op |-> "charge", arg |-> ""]}
       \cup {[op |-> "self", arg |-> a] : a \in {"default", "infilter", "fA", "fAin", "fB", "fscalar", "inscalar", "inshape"}}
=============================================================================
