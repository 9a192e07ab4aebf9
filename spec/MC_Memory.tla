------------------------------ MODULE MC_Memory ------------------------------
(* Histories of calls, each taking two blocks and iterating; a call may be    *)
(* refused before it takes anything or after, cut at any iteration, or        *)
(* complete.  Fault: what the library does wrong.                             *)
EXTENDS Memory, TLC, Json
CONSTANTS MaxLen, Iters, Fault
VARIABLES phase, iter, live, val, held, twice, hist
vars == <<phase, iter, live, val, held, twice, hist>>
Roles == {"work", "result"}
\* the block of a role of the n-th call: a library reusing one block for all results has one
Block(n, r) == IF Fault = "one block" /\ r = "result" THEN <<0, r>> ELSE <<n, r>>
N == Len(hist)
Init == phase = "idle" /\ iter = 0 /\ live = {} /\ val = <<>> /\ held = {} /\ twice = FALSE /\ hist = <<>>
Free(B) == /\ live' = live \ B
           /\ twice' = (twice \/ ~(B \subseteq live))
Log(o) == /\ hist' = Append(hist, o)
          /\ (Len(hist') = MaxLen /\ Fault = "none") => PrintT(<<"@G", ToJson([ops |-> hist'])>>)
Take == /\ phase = "idle" /\ N < MaxLen /\ phase' = "running" /\ iter' = 0
        /\ live' = live \cup {Block(N + 1, r) : r \in Roles}
        /\ UNCHANGED <<val, held, twice, hist>>
Iterate == /\ phase = "running" /\ iter < Iters /\ iter' = iter + 1 /\ UNCHANGED <<phase, live, val, held, twice, hist>>
\* refused on its arguments: nothing was taken
Refuse == /\ phase = "idle" /\ N < MaxLen /\ Log([op |-> "call", ends |-> "refused", keep |-> FALSE])
          /\ UNCHANGED <<phase, iter, live, val, held, twice>>
Ended(ends) ==
  /\ phase = "running" /\ (ends = "cut" => iter > 0)
  /\ phase' = "idle" /\ iter' = 0
  /\ Free({Block(N + 1, r) : r \in IF Fault = "cut keeps work" /\ ends = "cut" THEN {"result"}
                                   ELSE IF Fault = "refusal keeps all" /\ ends = "refused" THEN {} ELSE Roles})
  /\ Log([op |-> "call", ends |-> ends, keep |-> FALSE])
  /\ UNCHANGED <<val, held>>
Complete(keep) ==
  /\ phase = "running" /\ iter = Iters /\ phase' = "idle" /\ iter' = 0
  /\ Free({Block(N + 1, "work")} \cup IF ~keep \/ Fault = "freed at the end" THEN {Block(N + 1, "result")} ELSE {})
  /\ held' = IF keep THEN held \cup {N + 1} ELSE held
  /\ val' = [b \in DOMAIN val \cup {Block(N + 1, "result")} |-> IF b = Block(N + 1, "result") THEN N + 1 ELSE val[b]]
  /\ Log([op |-> "call", ends |-> "done", keep |-> keep])
Drop == /\ phase = "idle" /\ N < MaxLen
        /\ \E k \in held : /\ held' = held \ {k} /\ Free({Block(k, "result")})
                           /\ Log([op |-> "drop", which |-> k])
        /\ UNCHANGED <<phase, iter, val>>
Next == Take \/ Iterate \/ Refuse \/ Ended("cut") \/ Ended("refused") \/ (\E b \in BOOLEAN : Complete(b)) \/ Drop
Spec == Init /\ [][Next]_vars
NoLeak == phase = "idle" => live \subseteq {Block(k, "result") : k \in held}
NoDangling == \A k \in held : Block(k, "result") \in live
Intact == \A k \in held : val[Block(k, "result")] = k
Once == ~twice
AsSaid == phase = "idle" => held = HeldAfter(hist)
=============================================================================
