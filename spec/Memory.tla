-------------------------------- MODULE Memory --------------------------------
(* Who owns what a call allocates.  A call takes work space and space for its *)
(* results; however it ends, the work space is given back; the results are    *)
(* the caller's once the call has completed, and given back otherwise.  What  *)
(* the caller holds is released when the caller drops it, and only then.      *)
(* A history is a sequence of calls and drops:                                *)
(*   [op |-> "call", ends, keep]   ends: done, or cut, or refused             *)
(*   [op |-> "drop", which]        which: the position of a kept call         *)
EXTENDS Naturals, Sequences, FiniteSets
HeldStep(held, o, k) ==
  IF o.op = "drop" THEN held \ {o.which}
  ELSE IF o.ends = "done" /\ o.keep THEN held \cup {k} ELSE held
HeldAfter(ops) == LET RECURSIVE h(_) h(k) == IF k = 0 THEN {} ELSE HeldStep(h(k - 1), ops[k], k) IN h(Len(ops))
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET k == CHOOSE j \in S : TRUE IN f[k] + SumOf(f, S \ {k})
=============================================================================
