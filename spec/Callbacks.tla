----------------------------- MODULE Callbacks ------------------------------
(***************************************************************************)
(* Progress reporting of the long computations.  An operation is           *)
(*   [op, n, fail]:  op "run"/"multi" with n iterations, "track" from      *)
(*   profile n; fail = 0, or the number of the callback that raises.       *)
(* The object holds the result of the last operation that completed.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
\* The complete sequence of <<progress, total>> of an operation; turns is the
\* number of turns between the first and the last profile.
CallSeq(op, n, turns) ==
  IF op = "track" THEN [k \in 1..turns |-> <<k, turns>>]
  ELSE [k \in 1..n |-> <<k, n>>] \o <<<<n, n>>>>
Fails(o, turns) == o.fail \in 1..Len(CallSeq(o.op, o.n, turns))
Calls(o, turns) == IF Fails(o, turns) THEN SubSeq(CallSeq(o.op, o.n, turns), 1, o.fail)
                   ELSE CallSeq(o.op, o.n, turns)
Key(o) == o.op \o "/" \o ToString(o.n)
=============================================================================
