---------------------------- MODULE T_Ownership -----------------------------
(* Conformance of recorded histories: per call the digests of all objects   *)
(* before and after, the outcome and a sketch of the result.                *)
EXTENDS TraceLoop
VARIABLES version, calls
Own == INSTANCE Ownership
Changed(s) == {x \in DOMAIN s.before : s.before[x] # s.after[x]}
Framed(s) == Changed(s) \subseteq Own!Table[s.op].may
Saw(s) == [x \in Own!Table[s.op].reads |-> s.before[x]]
SameSketch(a, b) == /\ a.outcome = b.outcome
                    /\ Len(a.result) = Len(b.result)
                    /\ \A k \in 1..Len(a.result) : RNear(a.result[k], b.result[k], "1e-9", "1e-300")
Repeats(T) == \A j, k \in 1..Len(T.calls) :
   (j < k /\ T.calls[j].op = T.calls[k].op /\ Saw(T.calls[j]) = Saw(T.calls[k])) => SameSketch(T.calls[j], T.calls[k])
Bad(T) == {k \in 1..Len(T.calls) : ~Framed(T.calls[k])}
FirstOf(S) == CHOOSE k \in S : \A j \in S : k <= j
OwnVerdicts(T) ==
  IF Bad(T) # {} THEN
    LET s == T.calls[FirstOf(Bad(T))]
        x == CHOOSE x \in Changed(s) \ Own!Table[s.op].may : TRUE IN {"bad:" \o s.op \o " changed " \o x}
  ELSE IF \E k \in 1..Len(T.calls)-1 : T.calls[k+1].before # T.calls[k].after THEN {"bad:objects changed between calls"}
  ELSE IF ~Repeats(T) THEN {"bad:repeated " \o T.calls[1].op \o " differs"}
  ELSE IF \E k \in 1..Len(T.calls) : T.calls[k].must /\ T.calls[k].outcome # "ok" THEN {"bad:call refused"}
  ELSE {"ok:" \o T.calls[1].op}
OInitT == Init /\ version = 0 /\ calls = 0
OSpecT == OInitT /\ [][Next /\ UNCHANGED <<version, calls>>]_<<c, version, calls>>
=============================================================================
