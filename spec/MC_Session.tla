------------------------------ MODULE MC_Session ------------------------------
(* Sessions of a small number of operations.  A library keeping something of  *)
(* its own is modelled beside the state: what a tracker copied when it was    *)
(* made (Copies), or what the last result of a kind left for the next         *)
(* (Keeps).  An honest library returns what the tag says.                     *)
EXTENDS Session, TLC, Json
CONSTANTS MaxLen, Copies, Keeps, Deep
VARIABLES s, hist, copied, kept, bad
vars == <<s, hist, copied, kept, bad>>
Init == s = EmptySession /\ hist = <<>> /\ copied = <<>> /\ kept = [none |-> TRUE] /\ bad = FALSE
Settings == {[a |-> "1", b |-> "1", factor |-> "1.0"]}
Idx(q) == 1..Len(q)
Ops == [op : {"build"}, settings : IF Len(s.machines) < 2 THEN Settings ELSE {}]
  \cup [op : {"set"}, machine : Idx(s.machines), name : {"a", "b", "factor"}, value : {"2"}]
  \cup [op : {"compute"}, machine : Idx(s.machines)]
  \cup [op : {"precision"}, value : {"single", "double"} \ {s.prec}]
  \cup [op : {"area"}, machine : Idx(s.machines)]
  \cup [op : {"tracker"}, machine : IF Len(s.trackers) < 2 THEN Idx(s.machines) ELSE {}]
  \cup [op : {"profiles"}, machine : IF Len(s.profiles) < 1 THEN Idx(s.machines) ELSE {}, w : {"w1"}]
  \cup [op : {"refield"}, profiles : Idx(s.profiles), w : {"w2"}]
  \cup [op : {"enable"}, tracker : Idx(s.trackers), profiles : Idx(s.profiles)]
  \cup [op : {"track"}, tracker : Idx(s.trackers), prof : {"0"}, init : {"auto", "i1"}]
  \cup IF Deep THEN [op : {"tomo"}, w : IF Len(s.tomos) < 2 THEN {"w1"} ELSE {}, x : {"x1"}]
  \cup [op : {"points"}, tomo : Idx(s.tomos), x : {"x2"}]
  \cup [op : {"run"}, tomo : Idx(s.tomos), niter : {"2"}, how : {"run"}]
  \cup [op : {"call"}, fn : {"f"}, content : {"c1", "c2"}] ELSE {}
Observes(o) == SessionTag(s, o) # <<>>
\* what a library keeping things would base its result on
Actual(o) ==
  IF o.op = "track" /\ Copies THEN [SessionTag(s, o) EXCEPT ![2] = copied[o.tracker]]
  ELSE IF Keeps /\ o.op \in DOMAIN kept /\ o.op = "area" THEN kept[o.op]
  ELSE SessionTag(s, o)
\* tracking from given particles through self fields needs what an automatic distribution leaves behind
Allowed(o) == ~(o.op = "track" /\ o.init # "auto" /\ s.trackers[o.tracker].fields # NoFields)
Do(o) == /\ s' = SessionStep(s, o)
         /\ hist' = Append(hist, o)
         /\ copied' = IF o.op = "tracker" THEN Append(copied, s.machines[o.machine].snap) ELSE copied
         /\ kept' = IF Observes(o) /\ o.op \notin DOMAIN kept THEN kept @@ (o.op :> SessionTag(s, o)) ELSE kept
         /\ bad' = (Observes(o) /\ Actual(o) # SessionTag(s, o))
         /\ (Len(hist') = MaxLen /\ Observes(o) /\ ~Copies /\ ~Keeps) => PrintT(<<"@G", ToJson([ops |-> hist'])>>)
Next == Len(hist) < MaxLen /\ \E o \in Ops : Allowed(o) /\ Do(o)
Spec == Init /\ [][Next]_vars
Honest == ~bad
\* computing twice, or once more after unrelated operations, changes no tag
Idempotent == \A k \in Idx(s.machines) :
  LET o == [op |-> "compute", machine |-> k] IN SessionTag(SessionStep(s, o), o) = SessionTag(s, o)
Separate == \A k \in Idx(s.machines) : \A j \in Idx(s.machines) \ {k} :
  SessionTag(SessionStep(s, [op |-> "set", machine |-> k, name |-> "a", value |-> "2"]), [op |-> "area", machine |-> j])
    = SessionTag(s, [op |-> "area", machine |-> j])
=============================================================================
