----------------------------- MODULE MC_ParLoop -----------------------------
(* Why disjoint footprints are enough: for every assignment of programs to  *)
(* threads without conflicting accesses, every interleaving ends in the     *)
(* memory of the sequential execution.  AnyProgs = TRUE is the negative     *)
(* control: with conflicts some interleaving does not.                      *)
EXTENDS ParLoop
CONSTANTS NThreads, Steps, Cells, AnyProgs
VARIABLES progs, pc, reg, mem
vars == <<progs, pc, reg, mem>>
Th == 1..NThreads
Acc == {"r", "w", "u"} \X Cells
\* a plain read accumulates, a write stores the accumulator and the thread id
Step(t, a, m, r) == CASE a[1] = "r" -> <<m, r * 3 + m[a[2]]>>
                      [] a[1] = "w" -> <<[m EXCEPT ![a[2]] = r + t], r>>
                      [] a[1] = "u" -> <<[m EXCEPT ![a[2]] = @ + 10 * t], r>>
RECURSIVE RunProg(_, _, _, _, _)
RunProg(t, p, k, m, r) == IF k > Len(p) THEN m
  ELSE LET n == Step(t, p[k], m, r) IN RunProg(t, p, k + 1, n[1], n[2])
RECURSIVE RunAll(_, _, _)
RunAll(ps, t, m) == IF t > NThreads THEN m ELSE RunAll(ps, t + 1, RunProg(t, ps[t], 1, m, 0))
Mem0 == [c \in Cells |-> c]
Init == /\ progs \in [Th -> [1..Steps -> Acc]]
        /\ AnyProgs \/ RaceFree(progs, Cells)
        /\ pc = [t \in Th |-> 1] /\ reg = [t \in Th |-> 0] /\ mem = Mem0
Do(t) == /\ pc[t] <= Steps
         /\ LET n == Step(t, progs[t][pc[t]], mem, reg[t])
            IN mem' = n[1] /\ reg' = [reg EXCEPT ![t] = n[2]]
         /\ pc' = [pc EXCEPT ![t] = @ + 1] /\ UNCHANGED progs
Next == \E t \in Th : Do(t)
Spec == Init /\ [][Next]_vars
SequentialResult == (\A t \in Th : pc[t] > Steps) => mem = RunAll(progs, 1, Mem0)
=============================================================================
