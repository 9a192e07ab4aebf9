---------------------------- MODULE MC_Pipeline ----------------------------
(* Every order of the steps the dependencies allow: all give products of    *)
(* the same provenance.  Each complete order is emitted and composed by     *)
(* hand on the real code.                                                   *)
EXTENDS Pipeline, TLC, Json
VARIABLE order
MInit == PInit /\ order = <<>>
MNext == \/ \E s \in Steps : Do(s) /\ order' = Append(order, s)
         \/ /\ Finished /\ Len(order) > 0 /\ order[Len(order)] # "end"
            /\ PrintT(<<"@G", ToJson([order |-> order, fit |-> pcfg.fit, self |-> pcfg.self])>>)
            /\ order' = Append(order, "end") /\ UNCHANGED pvars
MSpec == MInit /\ [][MNext]_<<pvars, order>> /\ WF_<<pvars, order>>(MNext)
\* the order of the packaged run is one of them
Kept(g) == SelectSeq(RunOrder, LAMBDA s : s \in Wanted(g))
RunIsAllowed == \A k \in 1..Len(Kept(pcfg)) :
   After(Kept(pcfg)[k]) \cap Wanted(pcfg) \subseteq {Kept(pcfg)[j] : j \in 1..k-1}
\* the image always depends on the fit when one was asked for
FitReachesImage == Finished /\ pcfg.fit => "synch" \in made["image"].mach /\ "synch" \in made["track"].mach
SelfReachesTracking == Finished /\ pcfg.self => "self" \in made["track"].from
Terminates == <>Finished
=============================================================================
