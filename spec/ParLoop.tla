------------------------------ MODULE ParLoop -------------------------------
(***************************************************************************)
(* Parallel loops.  A logical thread performs accesses to shared locations;*)
(* an access is plain ("r", "w") or synchronised ("u": an atomic or locked *)
(* commutative update).  Two accesses of different threads conflict when   *)
(* they touch one location, one of them writes and they are not both       *)
(* synchronised.                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
\* Who touches a location: pr, pw plain readers and writers; sr, sw synchronised.
LocationRaces(pr, pw, sr, sw) ==
  \/ \E t \in pw : (pr \cup pw \cup sr \cup sw) \ {t} # {}
  \/ \E t \in sw : (pr \cup pw) \ {t} # {}
Touch(progs, k, c) == {t \in DOMAIN progs : \E i \in 1..Len(progs[t]) : progs[t][i] = <<k, c>>}
RaceFree(progs, cells) == \A c \in cells :
  ~LocationRaces(Touch(progs, "r", c), Touch(progs, "w", c), {}, Touch(progs, "u", c))
=============================================================================
