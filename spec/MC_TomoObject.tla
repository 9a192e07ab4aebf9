--------------------------- MODULE MC_TomoObject ---------------------------
EXTENDS TomoObject, TLC, Json
CONSTANTS MaxLen
VARIABLES s, hist, prev, last
vars == <<s, hist, prev, last>>
Init == s = Fresh /\ hist = <<>> /\ prev = Fresh /\ last = "ok"
Next == /\ Len(hist) < MaxLen
        /\ \E o \in Ops : /\ Specified(s, o)
                          /\ last' = Outcome(s, o) /\ s' = Apply(s, o) /\ prev' = s
                          /\ hist' = Append(hist, o)
                          /\ Len(hist') = MaxLen => PrintT(<<"@G", ToJson(hist')>>)
Spec == Init /\ [][Next]_vars
RejectedChangesNothing == last # "ok" => s = prev
RunNeedsCoordinates == (hist # <<>> /\ hist[Len(hist)].op \in {"run", "hybrid"} /\ last = "ok") => s.x \in GoodX
OnlyRunsMakeResults == (s.w # prev.w \/ s.d # prev.d) => hist[Len(hist)].op \in {"run", "hybrid"}
AssignmentsIndependent == (s.x # prev.x => s.y = prev.y) /\ (s.y # prev.y => s.x = prev.x)
=============================================================================
