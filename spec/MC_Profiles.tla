----------------------------- MODULE MC_Profiles -----------------------------
(* All histories of a profiles object up to a given length.                 *)
EXTENDS ProfilesObj, TLC, Json
CONSTANT MaxOps
VARIABLES st, hist
vars == <<st, hist>>
Init == /\ hist = <<>> /\ st \in {New(w, c) : w \in {"A", "N"}, c \in {"none", "given"}}
Do(o) == /\ Len(hist) < MaxOps /\ st' = After(st, o)
         /\ hist' = Append(hist, [op |-> o.op, arg |-> o.arg, from |-> st])
         /\ (Len(hist') = MaxOps => PrintT(<<"@G", ToJson([new |-> hist'[1].from, ops |-> hist'])>>))
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars
InStep == st.nb = Width(st.w)
ChargeFirst == st.vs # "none" => st.charge # "none"
Together == (st.ds = "none") <=> (st.vs = "none")
RejectedKeeps == [][\A o \in Ops : (hist' = Append(hist, [op |-> o.op, arg |-> o.arg, from |-> st]) /\ Outcome(st, o) # "ok") => st' = st]_vars
=============================================================================
