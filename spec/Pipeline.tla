------------------------------ MODULE Pipeline ------------------------------
(* A reconstruction as the composition of the documented steps.  Steps read *)
(* and write products; the machine object is written by several of them, so *)
(* it is tracked as a set of contributions.  A product is remembered as the *)
(* step that made it together with what the step read (its provenance):     *)
(* two ways of running give the same reconstruction when every product has  *)
(* the same provenance.                                                     *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS NONE
\* cfg: [fit, self, film] - does the input ask for a fitted synchronous bin,
\* for self-fields; which profile starts the tracking.
VARIABLES pcfg, made, machine
pvars == <<pcfg, made, machine>>
Steps == {"values", "waterfall", "profiles", "charge", "fit", "self", "track", "coords", "filter", "tomogram", "image"}
Wanted(g) == Steps \ ((IF g.fit THEN {} ELSE {"fit"}) \cup (IF g.self THEN {"coords"} ELSE {"self"}))
\* what a step needs to be there before it (only steps wanted in this run count)
After(s) == CASE s = "values" -> {} [] s = "waterfall" -> {}
   [] s = "profiles" -> {"waterfall"}
   [] s = "charge" -> {"profiles"}
   [] s = "fit" -> {"profiles", "values"}
   [] s = "self" -> {"profiles", "values", "charge", "fit"}
   [] s = "track" -> {"values", "profiles", "fit", "self"}
   [] s = "coords" -> {"track"}
   [] s = "filter" -> {"track", "coords"}
   [] s = "tomogram" -> {"filter", "profiles"}
   [] s = "image" -> {"tomogram", "track"}
\* which other products a step reads
Reads(s) == After(s) \ {"values", "fit"}
\* whether it reads or writes the machine object, and which of the machine's
\* contributions it depends on
Writes(s) == CASE s = "values" -> {"turns"} [] s = "profiles" -> {"bins"} [] s = "fit" -> {"synch"}
   [] s = "track" -> {"area"} [] OTHER -> {}
Uses(s) == CASE s = "fit" -> {"turns", "bins"} [] s = "self" -> {"turns", "bins", "synch"}
   [] s = "track" -> {"turns", "bins", "synch"} [] s = "coords" -> {"turns", "bins"}
   [] s = "filter" -> {"bins"} [] s = "image" -> {"bins", "synch", "area"} [] OTHER -> {}
NotYet == [s \in Steps |-> NONE]
PInit == \E f, sf \in BOOLEAN : pcfg = [fit |-> f, self |-> sf] /\ made = NotYet /\ machine = {}
Do(s) == /\ s \in Wanted(pcfg) /\ made[s] = NONE
         /\ \A r \in After(s) \cap Wanted(pcfg) : made[r] # NONE
         /\ made' = [made EXCEPT ![s] = [from |-> {r \in Reads(s) : made[r] # NONE},
                                         mach |-> machine \cap Uses(s)]]
         /\ machine' = machine \cup Writes(s)
         /\ UNCHANGED pcfg
Finished == \A s \in Wanted(pcfg) : made[s] # NONE
\* The provenance the result must have, whatever the order of the steps.
Avail(g) == UNION {Writes(s) : s \in Wanted(g)}
Provenance(g, s) == [from |-> Reads(s) \cap Wanted(g), mach |-> Uses(s) \cap Avail(g)]
SameResult == \A s \in Steps : made[s] # NONE => made[s] = Provenance(pcfg, s)
\* The order in which each packaged entry point performs the steps.
RunOrder == <<"values", "waterfall", "profiles", "charge", "fit", "self", "track", "coords", "filter", "tomogram", "image">>
\* Numbers of the films a command-line run writes out.
Films(start, stop, step) == {n \in start..stop : (n - start) % step = 0}
=============================================================================
