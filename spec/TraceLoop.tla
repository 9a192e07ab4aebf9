----------------------------- MODULE TraceLoop -----------------------------
(* Reads the recorded executions (a JSON sequence of records) and prints    *)
(* the verdicts the specification gives on each.  A trace module defines    *)
(* the set of verdict strings of one record and substitutes it for          *)
(* Verdicts in its cfg file.                                                *)
EXTENDS Num, Json, IOUtils, TLC, FiniteSets
CONSTANT Verdicts(_)
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE c
Init == c = 1
Next == \/ /\ c <= Len(Cases)
           /\ \A v \in Verdicts(Cases[c]) : PrintT(<<"@V", Cases[c].id, v>>)
           /\ c' = c + 1
        \/ /\ c = Len(Cases) + 1 /\ PrintT(<<"@DONE", c>>) /\ c' = c + 1
TSpec == Init /\ [][Next]_c
\* The name of the first failing clause of a sequence of <<holds, name>>, or ok.
FirstBad(clauses, okname) ==
  IF \E k \in 1..Len(clauses) : ~clauses[k][1]
  THEN "bad:" \o clauses[CHOOSE k \in 1..Len(clauses) :
                           ~clauses[k][1] /\ \A m \in 1..k-1 : clauses[m][1]][2]
  ELSE "ok:" \o okname
Has(T, f) == f \in DOMAIN T
=============================================================================
