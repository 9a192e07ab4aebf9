------------------------------ MODULE MC_Config ------------------------------
EXTENDS Config, TLC, Json
CONSTANT MaxLen
VARIABLES s, hist
Init == s = CFresh /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E o \in COps : /\ s' = CApply(s, o) /\ hist' = Append(hist, o)
                           /\ Len(hist') = MaxLen => PrintT(<<"@G", ToJson(hist')>>)
Spec == Init /\ [][Next]_<<s, hist>>
Selections == SelectSeq(hist, LAMBDA o : o \in {"single", "double"})
LastSelectionWins == s.prec = (IF Selections = <<>> THEN "float64"
                               ELSE IF Selections[Len(Selections)] = "single" THEN "float32" ELSE "float64")
=============================================================================
