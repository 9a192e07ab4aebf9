---------------------------- MODULE MC_Callbacks ----------------------------
(* The kernels step by step: compute a step, report it, stop at the first   *)
(* callback that raises; store only on completion.  Histories of MaxOps     *)
(* operations on one object are emitted for replay.                         *)
EXTENDS Callbacks, Json
CONSTANTS MaxOps, Turns, Ops0
VARIABLES hist, pc, step, calls, stored, prev, raised
vars == <<hist, pc, step, calls, stored, prev, raised>>
Sizes(op) == IF op = "track" THEN {0, 1} ELSE {0, 1, 3}
OpSet(op) == UNION {{[op |-> op, n |-> n, fail |-> f] :
                      f \in 0 .. (IF op = "track" THEN Turns ELSE n + 1)} : n \in Sizes(op)}
AllOps(kinds) == UNION {OpSet(k) : k \in kinds}
Init == hist = <<>> /\ pc = "idle" /\ step = 0 /\ calls = <<>> /\ stored = "none" /\ prev = "none" /\ raised = FALSE
Cur == hist[Len(hist)]
Start == /\ pc = "idle" /\ Len(hist) < MaxOps
         /\ \E o \in AllOps(IF hist = <<>> THEN Ops0 ELSE {hist[1].op}) :
              hist' = Append(hist, o)
         /\ pc' = "work" /\ step' = 0 /\ calls' = <<>> /\ prev' = stored /\ raised' = FALSE
         /\ UNCHANGED stored
\* one unit of work followed by its callback
Work == /\ pc = "work"
        /\ LET total == IF Cur.op = "track" THEN Turns ELSE Cur.n
           IN IF step < total
              THEN /\ step' = step + 1 /\ calls' = Append(calls, <<step + 1, total>>)
                   /\ IF Len(calls') = Cur.fail THEN pc' = "idle" /\ raised' = TRUE /\ UNCHANGED stored
                      ELSE UNCHANGED <<pc, raised, stored>>
              ELSE /\ UNCHANGED step
                   /\ calls' = IF Cur.op = "track" THEN calls ELSE Append(calls, <<total, total>>)
                   /\ pc' = "idle"
                   /\ IF Cur.op # "track" /\ Len(calls') = Cur.fail THEN raised' = TRUE /\ UNCHANGED stored
                      ELSE raised' = FALSE /\ stored' = Key(Cur)
        /\ UNCHANGED <<hist, prev>>
        /\ pc' = "idle" /\ Len(hist) = MaxOps => PrintT(<<"@G", ToJson(hist)>>)
Next == Start \/ Work
Spec == Init /\ [][Next]_vars
Done == pc = "idle" /\ hist # <<>>
CompleteOrAborted == Done => calls = Calls(Cur, Turns) /\ (raised <=> Fails(Cur, Turns))
AlwaysPrefix == \A k \in 1..Len(calls) : calls[k] = CallSeq(Cur.op, Cur.n, Turns)[k]
AbortStoresNothing == Done => stored = (IF raised THEN prev ELSE Key(Cur))
=============================================================================
