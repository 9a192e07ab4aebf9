-------------------------------- MODULE Session --------------------------------
(***************************************************************************)
(* A session: machines are built, changed and computed, trackers, profiles *)
(* and tomography objects are made from them and used, functions are       *)
(* called, in any order and interleaved.  Every result is a function of    *)
(* the present state of the objects it is made from, so a session has, for *)
(* every result, a tag: what the result may depend on, and nothing else.   *)
(* A machine is [snap, cur]: its settings when its programme was computed  *)
(* and its settings now.  Settings and contents are opaque here, but for    *)
(* "factor": the voltages of the programme changed by hand, in place, since *)
(* it was computed.                                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
NoFields == <<>>
Recomputed(c) == [c EXCEPT !.factor = "1.0"]
EmptySession == [prec |-> "double", machines |-> <<>>, trackers |-> <<>>, profiles |-> <<>>, tomos |-> <<>>]
FieldsTag(m, w) == <<"fields", m.snap, m.cur, w>>
\* the state after an operation
SessionStep(s, o) ==
  CASE o.op = "build" -> [s EXCEPT !.machines = Append(@, [snap |-> o.settings, cur |-> o.settings])]
    [] o.op = "set" -> [s EXCEPT !.machines[o.machine].cur[o.name] = o.value]
    [] o.op = "compute" -> [s EXCEPT !.machines[o.machine] = LET c == Recomputed(@.cur) IN [snap |-> c, cur |-> c]]
    [] o.op = "precision" -> [s EXCEPT !.prec = o.value]
    [] o.op = "tracker" -> [s EXCEPT !.trackers = Append(@, [machine |-> o.machine, fields |-> NoFields])]
    [] o.op = "profiles" -> [s EXCEPT !.profiles = Append(@, [machine |-> o.machine, fields |-> FieldsTag(s.machines[o.machine], o.w)])]
    [] o.op = "refield" -> [s EXCEPT !.profiles[o.profiles].fields = FieldsTag(s.machines[s.profiles[o.profiles].machine], o.w)]
    [] o.op = "enable" -> [s EXCEPT !.trackers[o.tracker].fields = s.profiles[o.profiles].fields]
    [] o.op = "tomo" -> [s EXCEPT !.tomos = Append(@, [w |-> o.w, x |-> o.x, prec |-> s.prec])]
    [] o.op = "points" -> [s EXCEPT !.tomos[o.tomo].x = o.x]
    [] OTHER -> s
\* what the result of an operation may depend on; <<>> for one without a result
SessionTag(s, o) ==
  CASE o.op = "compute" -> <<"programme", Recomputed(s.machines[o.machine].cur)>>
    [] o.op = "area" -> <<"area", s.machines[o.machine].snap, s.machines[o.machine].cur>>
    [] o.op = "track" -> LET t == s.trackers[o.tracker] m == s.machines[t.machine]
                         IN <<"track", m.snap, m.cur, s.prec, o.prof, o.init, t.fields>>
    [] o.op = "profiles" -> FieldsTag(s.machines[o.machine], o.w)
    [] o.op = "refield" -> FieldsTag(s.machines[s.profiles[o.profiles].machine], o.w)
    [] o.op = "run" -> LET t == s.tomos[o.tomo] IN <<"run", t.w, t.x, t.prec, s.prec, o.niter, o.how>>
    [] o.op = "call" -> <<"call", o.fn, o.content, s.prec>>
    [] OTHER -> <<>>
RECURSIVE SessionAfter(_, _)
SessionAfter(s, h) == IF h = <<>> THEN s ELSE SessionAfter(SessionStep(s, Head(h)), Tail(h))
=============================================================================
