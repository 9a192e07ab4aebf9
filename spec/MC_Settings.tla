------------------------------ MODULE MC_Settings ------------------------------
(* Machines built and changed one after the other, with two settings standing *)
(* for any two groups of settings.  Leaky: the values given to a machine are  *)
(* kept in the table of defaults.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, Leaky
Names == {"a", "b"}
VARIABLES table, ms, own, hist
vars == <<table, ms, own, hist>>
Free == [n \in Names |-> "default"]
Init == table = Free /\ ms = <<>> /\ own = <<>> /\ hist = <<>>
Log(o) == hist' = Append(hist, o)
Build(kind, G) ==
  LET v == [n \in Names |-> IF n \in G THEN "given" ELSE table[n]]
  IN /\ ms' = Append(ms, v)
     /\ own' = Append(own, [n \in Names |-> IF n \in G THEN "given" ELSE "default"])
     /\ table' = IF Leaky THEN v ELSE table
     /\ Log([op |-> "build", kind |-> kind, names |-> [n \in Names |-> n \in G]])
Set(k, n) == /\ ms' = [ms EXCEPT ![k][n] = "set"] /\ own' = [own EXCEPT ![k][n] = "set"] /\ UNCHANGED table
             /\ Log([op |-> "set", machine |-> k, name |-> n])
Emit == (Len(hist') = MaxLen /\ ~Leaky) => PrintT(<<"@G", ToJson([ops |-> hist'])>>)
Next == /\ Len(hist) < MaxLen
        /\ \/ \E kind \in {"machine", "programs"}, G \in SUBSET Names : Build(kind, G)
           \/ \E k \in 1..Len(ms), n \in Names : Set(k, n)
        /\ Emit
Spec == Init /\ [][Next]_vars
OwnSettingsOnly == ms = own
=============================================================================
