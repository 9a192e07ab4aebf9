---------------------------- MODULE MC_Programs ----------------------------
(* How many turns of a cycle are computed before the window of the          *)
(* measurement is cut out.  Time in integer units, a turn lasts P, turn j   *)
(* (from 0) is at (j+1)P.  The programme's points are visited one by one    *)
(* and all turns up to a point are computed; the search stops when enough   *)
(* turns after the reference time are known.  Margin = 0 is the rule of the *)
(* original code (found to lose a turn), Margin = 1 the repaired one.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS P, MaxProf, MaxDt, MaxGap, MaxTref, Margin
VARIABLES shape, pts, i, k, turn, pc
vars == <<shape, pts, i, k, turn, pc>>
NT == shape.np * shape.dt
I0 == shape.ref * shape.dt
At(j) == (j + 1) * P
\* Points of the programme: gap apart, offset so that no point is on a turn.
Points(gap, last) == [n \in 1..((last \div gap) + 2) |-> IF n = 1 THEN 0 ELSE (n - 1) * gap * 2 - 1]
Init == /\ \E np \in 1..MaxProf, dt \in 1..MaxDt, gap \in 1..MaxGap, tr \in 0..MaxTref, room \in 0..2 : \E ref \in 0..np-1 :
             /\ 2 * tr + 1 > At(ref * dt)
             /\ shape = [np |-> np, dt |-> dt, ref |-> ref, tref |-> 2 * tr + 1, gap |-> gap]
             /\ pts = Points(gap, ((2 * tr + 1) \div 2) + ((np * dt - ref * dt + room) * P) \div 2 + P)
        /\ i = 0 /\ k = 1 /\ turn = shape.ref * shape.dt /\ pc = "walk"
\* One more turn: the next turn (i+1) is not after point k.
TurnStep == /\ pc = "walk" /\ k <= Len(pts) /\ At(i + 1) <= pts[k]
            /\ i' = i + 1
            /\ turn' = IF At(i + 2) > shape.tref THEN turn + 1 ELSE turn
            /\ UNCHANGED <<shape, pts, k, pc>>
Point == /\ pc = "walk" /\ k <= Len(pts) /\ At(i + 1) > pts[k]
         /\ k' = k + 1
         /\ pc' = IF turn < NT + Margin THEN "walk" ELSE "cut"
         /\ UNCHANGED <<shape, pts, i, turn>>
Short == pc = "walk" /\ k > Len(pts) /\ pc' = "short" /\ UNCHANGED <<shape, pts, i, k, turn>>
Cut == /\ pc = "cut" /\ pc' = "done"
       /\ PrintT(<<"@G", ToJson([np |-> shape.np, dt |-> shape.dt, ref |-> shape.ref, tref |-> shape.tref, pts |-> pts, P |-> P])>>)
       /\ UNCHANGED <<shape, pts, i, k, turn>>
Next == TurnStep \/ Point \/ Short \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* turns 0..i are known
FirstAfter == CHOOSE j \in 0..i+1 : At(j) >= shape.tref /\ \A l \in 0..j-1 : At(l) < shape.tref
WindowComplete == pc \in {"cut", "done"} =>
   /\ \E j \in 0..i : At(j) >= shape.tref
   /\ FirstAfter - I0 >= 0
   /\ FirstAfter - I0 + NT <= i + 1
\* A programme is only refused when it ends within two turns of the window's end.
RefusedOnlyIfShort == pc = "short" =>
   pts[Len(pts)] < shape.tref + (NT - I0 + 2) * P
Ends == <>(pc \in {"done", "short"})
=============================================================================
