------------------------------ MODULE T_Restart ------------------------------
(* Reversibility and start independence on recorded runs: the clause        *)
(* RestartGivesSameRows of MC_Tracking evaluated on the code's own rows.    *)
(* A record has the rows of a first run (np profiles, n particles) and      *)
(* further runs: restarted from row p of the first run, and/or with only    *)
(* the particles listed in `who` (1-based).                                 *)
EXTENDS Num, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE c
T == Cases[c]
Say(v) == PrintT(<<"@V", T.id, v>>)
Span(v) == RMaxSeq([i \in 1..Len(v) |-> RAbs(v[i])])
SpanM(m) == RMaxSeq([k \in 1..Len(m) |-> Span(m[k])])
Pick(v, who) == [i \in 1..Len(who) |-> v[who[i]]]
Same(a, b, who, tol) == /\ Len(a) = Len(b)
                        /\ \A k \in 1..Len(b) : RCloseSeq(a[k], Pick(b[k], who), tol)
Judge(run) ==
  IF run.outcome # "ok" THEN "bad:tracking rejected|" \o run.mode
  ELSE IF ~Same(run.phi, T.phi, run.who, RMul(T.rtol, SpanM(T.phi)))
    THEN "bad:phase differs when " \o run.mode
  ELSE IF ~Same(run.en, T.en, run.who, RMul(T.rtol, SpanM(T.en)))
    THEN "bad:energy differs when " \o run.mode
  ELSE "ok:" \o run.mode
TInit == c = 1
TNext == \/ /\ c <= Len(Cases) /\ \A r \in DOMAIN T.runs : Say(Judge(T.runs[r])) /\ c' = c + 1
         \/ /\ c = Len(Cases) + 1 /\ PrintT(<<"@DONE", c>>) /\ c' = c + 1
TSpec == TInit /\ [][TNext]_c
=============================================================================
