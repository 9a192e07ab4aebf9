--------------------------- MODULE MC_Ownership ----------------------------
(* Histories: a call, another call, and the first call again.  The versions *)
(* are abstracted to changed / not changed.                                 *)
EXTENDS Ownership, TLC, Json
MNext == /\ Len(calls) < 3
         /\ \E o \in Ops : /\ Len(calls) = 2 => o = calls[1].op
                           /\ Call(o)
                           /\ (Len(calls) = 2 /\ version' = version /\ version = [x \in Objects |-> 0])
                                => PrintT(<<"@G", ToJson(<<calls'[1].op, calls'[2].op, calls'[3].op>>)>>)
MSpec == OInit /\ [][MNext]_ovars
\* A pure second call cannot make the repeated call see anything new.
Undisturbed ==
   (Len(calls) = 3 /\ Table[calls[1].op].may = {} /\ Table[calls[2].op].may \cap Table[calls[1].op].reads = {})
      => calls[1].saw = calls[3].saw
=============================================================================
