---------------------------- MODULE MC_Validity -----------------------------
(* Machine settings with at most two fields off their normal value, all     *)
(* film ranges, and all short histories of requests to a tracker.           *)
EXTENDS Validity, TLC, Json
CONSTANTS Depth, Film
VARIABLES m, s, ops
Normal == [k \in PositiveFields \cup NonNegativeFields \cup SpaceChargeFields |-> "1"]
FilmNormal == [filmstart |-> "0", filmstop |-> "2", filmstep |-> "1"]
Odd == {None, "-1", "-1e-9", "0", "1e-9"}
Fields == DOMAIN Normal
Base == [k \in Fields \cup {"filmstart", "filmstop", "filmstep"} |-> IF k \in Fields THEN Normal[k] ELSE FilmNormal[k]]
Settings == {[Base EXCEPT ![f] = v, ![g] = w] : f \in Fields, g \in Fields, v \in Odd, w \in Odd}
            \cup {[Base EXCEPT !.filmstart = a, !.filmstop = b, !.filmstep = d] : a \in Film, b \in Film, d \in Film}
            \cup {[Base EXCEPT !.filmstep = d, ![f] = v] : d \in Film, f \in Fields, v \in {None, "0", "-1"}} \cup {Base}
Init == /\ m \in Settings /\ s = NewTracker /\ ops = <<>>
Next == IF m # Base THEN PrintT(<<"@G", ToJson([kind |-> "machine", m |-> m])>>) /\ UNCHANGED <<m, s, ops>>
        ELSE \/ /\ Len(ops) < Depth /\ \E o \in TrackerOps : s' = OpEffect(s, o) /\ ops' = Append(ops, o) /\ UNCHANGED m
             \/ /\ Len(ops) = Depth /\ PrintT(<<"@G", ToJson([kind |-> "tracker", ops |-> ops])>>) /\ UNCHANGED <<m, s, ops>>
Spec == Init /\ [][Next]_<<m, s, ops>>
\* Valid exactly when no error may be raised; None is never accepted except for the two optional fields.
Sound == /\ MachineValid(m) <=> MachineErrors(m) = {}
         /\ MachineValid(m) => \A k \in (PositiveFields \cup NonNegativeFields) : m[k] # None
         /\ MachineErrors(m) \subseteq {"MachineParameterError", "SpaceChargeParameterError"}
         /\ (\E k \in PositiveFields : m[k] \in {"0", "-1"}) => "MachineParameterError" \in MachineErrors(m)
\* A selected film range always holds the profiles it announces.
FilmSane == FilmOk(m) => RLt("0", RAbs(m.filmstep)) /\ RLe(RAbs(m.filmstep), RAdd(m.filmstop, "1"))
Unchanged == [][\A o \in TrackerOps : (ops' = Append(ops, o) /\ OpError(o) # "ok") => s' = s]_<<m, s, ops>>
Flags == [][(s.ftn => s'.ftn) /\ (s.self => s'.self)]_<<m, s, ops>>
Consistent == /\ s.ftn <=> s.charge # None
              /\ s = RunOps(NewTracker, ops)
=============================================================================
