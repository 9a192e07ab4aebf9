----------------------------- MODULE MC_SelfField -----------------------------
(***************************************************************************)
(* Particles tracked through a machine with self-fields, for every small  *)
(* programme and field: going down undoes going up unless the field is     *)
(* added on the way down (Back), a particle outside the measured bins only *)
(* feels the RF (Outside), and the effect is linear in the field (Linear). *)
(***************************************************************************)
EXTENDS SelfField, TLC
CONSTANTS AddedDown, NTurns
Fields3 == {<<a, b, "0.0", "0.0">> : a \in {"0.0", "700.0"}, b \in {"-300.0", "450.0"}}
Programme(v, h, x0) == [m |-> [q |-> "1.0", h |-> h], cell |-> [t \in 1..NTurns+1 |-> "1.6"], phi0 |-> [t \in 1..NTurns+1 |-> "0.3"],
   phi12 |-> [t \in 1..NTurns+1 |-> "0.2"], dE0 |-> [t \in 1..NTurns+1 |-> "120.0"], drift |-> [t \in 1..NTurns+1 |-> IF t % 2 = 0 THEN "2e-4" ELSE "3e-4"],
   v1 |-> [t \in 1..NTurns+1 |-> "1000.0"], v2 |-> [t \in 1..NTurns+1 |-> IF t % 3 = 0 THEN "0.0" ELSE "250.0"],
   v |-> <<v>>, phiwrap |-> TwoPI, xorigin |-> x0, sy |-> "2.0", dEbin |-> "100.0"]
VARIABLES m, path, turn
vars == <<m, path, turn>>
Starts == [ph : {"-2.0", "-0.5", "0.1", "1.3"}, e : {"-900.0", "0.0", "550.0"}, unsure : {FALSE}]
Init == /\ \E v \in Fields3, h \in {"1.0", "2.0"}, x0 \in {"0.0", "-0.7"} : m = Programme(v, h, x0)
        /\ path \in {<<s>> : s \in Starts}
        /\ turn = 1
Next == /\ turn <= NTurns
        /\ path' = Append(path, UpTurn(m, 1, 0, path[turn], turn))
        /\ turn' = turn + 1 /\ m' = m
Spec == Init /\ [][Next]_vars
\* one turn down from the last state is the state before
Back == turn > 1 => LET s == DownTurn(m, 1, IF AddedDown THEN 1 ELSE -1, path[turn], turn - 1) IN
   path[turn].unsure \/ (RNear(s.ph, path[turn - 1].ph, "1e-9", "1e-9") /\ RNear(s.e, path[turn - 1].e, "1e-9", "1e-6"))
NoField == [m EXCEPT !.v = <<<<>>>>]
Outside == turn > 1 => LET s == UpTurn(NoField, 1, 0, path[turn - 1], turn - 1) IN
   RInt(BinAt(m, path[turn].ph, turn)) >= 2 => (s.e = path[turn].e /\ s.ph = path[turn].ph)
Twice == [m EXCEPT !.v = <<[i \in 1..4 |-> RMul("2.0", m.v[1][i])]>>]
Linear == turn > 1 => LET o == UpTurn(NoField, 1, 0, path[turn - 1], turn - 1).e
                          d == UpTurn(Twice, 1, 0, path[turn - 1], turn - 1).e
                      IN RNear(RSub(d, o), RMul("2.0", RSub(path[turn].e, o)), "1e-9", "1e-6")
=============================================================================
