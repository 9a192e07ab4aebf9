------------------------------- MODULE T_Memory -------------------------------
(* T.ops as in Memory, what a call ended like being what was seen.            *)
(* T.got[k]: for a call, the growth per repetition of the bytes in use, of    *)
(* the objects, and of the open files, when it is repeated T.reps times with  *)
(* its results dropped (the least of several batches); and after each         *)
(* operation the bytes in use since the start of the history, the size of     *)
(* what each call handed over, and which held results have kept their values. *)
EXTENDS TraceLoop, Memory
Slack == 16384
Balance(g, reps) == << <<g.bytes < 16 * reps, "gives back the memory it took">>,
                    <<g.objects < 3 * reps, "keeps no objects">>,
                    <<g.files <= 0, "closes its files">> >>
At(T, k) ==
  LET held == HeldAfter(SubSeq(T.ops, 1, k))
      g == T.got[k]
  IN IF {g.held[j][1] : j \in 1..Len(g.held)} # held THEN "bad:what is held is not what the specification says"
     ELSE FirstBad((IF T.ops[k].op = "call" THEN Balance(g, T.reps) ELSE <<>>) \o
                   << <<\A j \in 1..Len(g.held) : g.held[j][2], "results handed out keep their values">>,
                      <<g.live <= SumOf([j \in 1..Len(T.got) |-> T.got[j].size], held) + Slack,
                        "no more in use than what was handed out">> >>,
                   IF T.ops[k].op = "drop" THEN "drop" ELSE T.ops[k].ends)
MmVerdicts(T) == {At(T, k) : k \in 1..Len(T.ops)}
=============================================================================
