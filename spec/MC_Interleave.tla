--------------------------- MODULE MC_Interleave ----------------------------
(* All interleavings of NThreads threads of Steps accesses each, emitted    *)
(* as schedules for the instrumented kernels.                               *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS NThreads, Steps
VARIABLES left, sched
Th == 0..NThreads - 1
Init == left = [t \in Th |-> Steps] /\ sched = <<>>
Next == \E t \in Th : /\ left[t] > 0
                      /\ left' = [left EXCEPT ![t] = @ - 1]
                      /\ sched' = Append(sched, t)
                      /\ (\A u \in Th : left'[u] = 0) => PrintT(<<"@G", ToJson(sched')>>)
Spec == Init /\ [][Next]_<<left, sched>>
=============================================================================
