---------------------------- MODULE MC_Tracking ----------------------------
(* All start profiles, profile counts and turns per profile of the small    *)
(* scope; after the first pass tracking is restarted from the row obtained  *)
(* at any profile: the rows must come out the same (C06).                   *)
EXTENDS Tracking, TLC, Json
CONSTANTS MaxProf, MaxDt
VARIABLES first, re
Series(n, f(_)) == [k \in 1..n |-> f(k)]
Prog(np, dt, two) ==
  LET n == dt * (np - 1) + 1 IN
  [ v1 |-> Series(n, LAMBDA k : RAdd("0.8", RMul("0.05", k))),
    v2 |-> Series(n, LAMBDA k : IF two THEN RSub("0.5", RMul("0.04", k)) ELSE "0.0"),
    phi0 |-> Series(n, LAMBDA k : RAdd("0.3", RMul("0.02", k))),
    phi12 |-> Series(n, LAMBDA k : RMul("0.1", k)),
    dE0 |-> Series(n, LAMBDA k : RMul("0.01", k)),
    drift |-> Series(n, LAMBDA k : RAdd("0.1", RMul("0.03", k))),
    h |-> "2.0", dt |-> dt, np |-> np ]
Phi == <<"0.0", "0.4", "-0.7">>
En == <<"0.0", "-0.3", "0.5">>
MInit == /\ \E np \in 2..MaxProf, dt \in 1..MaxDt, two \in BOOLEAN : \E r \in 0..np-1 :
              /\ prog = Prog(np, dt, two) /\ start = r
              /\ off \in {d \in (1 - dt)..(dt - 1) : r * dt + d >= 0 /\ r * dt + d <= (np - 1) * dt}
              /\ PrintT(<<"@G", ToJson([np |-> np, dt |-> dt, r |-> r, off |-> off])>>)
         /\ turn = StartTurn /\ phi = Phi /\ en = En /\ ini = [phi |-> Phi, en |-> En]
         /\ rows = [k \in 1..prog.np |-> IF k = start + 1 /\ off = 0 THEN ini ELSE <<>>]
         /\ half = FALSE /\ dir = "up" /\ log = <<>> /\ nact = 0
         /\ first = <<>> /\ re = FALSE
Restart == /\ dir = "done" /\ ~re
           /\ \E p \in 0..prog.np-1 : Begin(prog, p, 0, rows[p+1].phi, rows[p+1].en)
           /\ first' = rows /\ re' = TRUE
MNext == (KStep /\ UNCHANGED <<first, re>>) \/ Restart
MSpec == MInit /\ [][MNext]_<<kvars, first, re>>
RestartGivesSameRows ==
  (re /\ dir = "done") => \A k \in 1..prog.np :
      /\ RCloseSeq(rows[k].phi, first[k].phi, "1e-9")
      /\ RCloseSeq(rows[k].en, first[k].en, "1e-9")
=============================================================================
