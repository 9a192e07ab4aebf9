----------------------------- MODULE T_Pipeline -----------------------------
(* Conformance of entry points.  kind "entry": an entry point ran on an     *)
(* input, the steps were composed by hand on the same input, in an order    *)
(* the specification allows; pairs holds the products of both.              *)
EXTENDS TraceLoop
VARIABLES pcfg, made, machine
P == INSTANCE Pipeline WITH NONE <- "none"
Pairs(T) == [k \in 1..Len(T.pairs) |->
   LET p == T.pairs[k] IN
   <<Len(p.a) = Len(p.b) /\ RCloseSeq(p.a, p.b, p.tol), p.name \o " differs">>]
Wanted(T) == P!Wanted([fit |-> T.fit, self |-> T.self])
Allowed(T) == \A k \in 1..Len(T.order) :
   /\ T.order[k] \in Wanted(T)
   /\ P!After(T.order[k]) \cap Wanted(T) \subseteq {T.order[j] : j \in 1..k-1}
\* which numbered files a tomoscope run leaves behind
FileSet(T) == LET fs == P!Films(T.film.start, T.film.stop, T.film.step) IN
   {<<"image", n + 1>> : n \in fs} \cup {<<"profile", n + 1>> : n \in fs}
     \cup {<<"d", 1 + CHOOSE n \in fs : \A m \in fs : m <= n>>}
EntryClauses(T) == <<
  <<Allowed(T) /\ {T.order[k] : k \in 1..Len(T.order)} = Wanted(T), "harness composed a forbidden order">>,
  <<T.outcome = T.hand, "outcome of " \o T.entry>> >> \o Pairs(T) \o <<
  <<~T.tomoscope \/ T.outcome # "ok" \/ {<<T.files[k].kind, T.files[k].n>> : k \in 1..Len(T.files)} = FileSet(T), "files written">>,
  <<T.clean, "stray files">>,
  <<T.kept, "input changed">> >>
PipeVerdicts(T) ==
  IF T.kind = "entry" THEN {FirstBad(EntryClauses(T), T.entry \o (IF T.outcome = "ok" THEN "" ELSE ", refused"))}
  ELSE {FirstBad(<<<<T.outcome = T.expect, T.entry \o " outcome">>>> \o Pairs(T), T.entry)}
PInitT == Init /\ pcfg = 0 /\ made = 0 /\ machine = 0
PSpec == PInitT /\ [][Next /\ UNCHANGED <<pcfg, made, machine>>]_<<c, pcfg, made, machine>>
=============================================================================
