------------------------------ MODULE MC_Device ------------------------------
EXTENDS Device, TLC, Json
CONSTANTS MaxLen, Wrong   \* Wrong: "no", "stale", "first"
VARIABLES s, hist
Step(t, o, wrong) == CASE wrong = "stale" -> DApplyStale(t, o) [] wrong = "first" -> DApplyFirst(t, o) [] OTHER -> DApply(t, o)
RECURSIVE WrongAfter(_, _, _)
WrongAfter(t, h, wrong) == IF h = <<>> THEN t ELSE WrongAfter(Step(t, Head(h), wrong), Tail(h), wrong)
\* histories that tell stale kernels, or kernels kept on the first GPU, from the right ones
Telling(h) == \E k \in 1..Len(h), w \in {"stale", "first"} :
  LET p == SubSeq(h, 1, k) a == WrongAfter(DFresh, p, w) b == DAfter(DFresh, p)
  IN DKernels(a) # DKernels(b) \/ DOn(a) # DOn(b)
Init == s = DFresh /\ hist = <<>>
Next == /\ Len(hist) < MaxLen
        /\ \E o \in DOps : /\ s' = Step(s, o, Wrong)
                           /\ hist' = Append(hist, o)
                           /\ (Len(hist') = MaxLen /\ Wrong = "no") => PrintT(<<"@G", ToJson([ops |-> hist', telling |-> Telling(hist')])>>)
Spec == Init /\ [][Next]_<<s, hist>>
KernelsFollow == s.dev = "GPU" => s.loaded = s.prec /\ s.on = s.id
Last(S) == LET q == SelectSeq(hist, LAMBDA o : o \in S) IN IF q = <<>> THEN "none" ELSE q[Len(q)]
LastSelectionWins == /\ s.prec = (IF Last({"single", "double"}) = "single" THEN "float32" ELSE "float64")
                     /\ s.dev = (IF Last({"cpu", "gpu", "second"}) \in {"gpu", "second"} THEN "GPU" ELSE "CPU")
                     /\ s.id = (CASE Last({"gpu", "second"}) = "gpu" -> 0 [] Last({"gpu", "second"}) = "second" -> 1 [] OTHER -> -1)
=============================================================================
