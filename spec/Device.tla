------------------------------- MODULE Device -------------------------------
(***************************************************************************)
(* Where and in which precision the computations run.  dev: where; id: the *)
(* GPU selected last; prec: the precision selected; loaded, on: precision  *)
(* and GPU of the kernels loaded ("none", -1 before the first).  Selecting *)
(* a device or a precision must leave the kernels that run next on the GPU *)
(* and in the precision selected, whatever came before; a GPU that is not  *)
(* there is refused and changes nothing; a negative number selects none.   *)
(***************************************************************************)
EXTENDS Integers, Sequences
DOps == {"single", "double", "cpu", "gpu", "second", "absent", "none"}
DFresh == [dev |-> "CPU", id |-> -1, prec |-> "float64", loaded |-> "none", on |-> -1]
DSetPrec(s, p) == [s EXCEPT !.prec = p, !.loaded = IF s.dev = "GPU" THEN p ELSE s.loaded]
DUse(s, i) == [s EXCEPT !.dev = "GPU", !.id = i, !.loaded = s.prec, !.on = i]
DApply(s, o) == CASE o = "single" -> DSetPrec(s, "float32")
                  [] o = "double" -> DSetPrec(s, "float64")
                  [] o = "gpu" -> DUse(s, 0)
                  [] o = "second" -> DUse(s, 1)
                  [] o = "cpu" -> [s EXCEPT !.dev = "CPU"]
                  [] o = "absent" -> s
                  [] o = "none" -> s
DRefused(o) == o = "absent"
\* The defects this guards against: kernels loaded only when a GPU is first used,
DApplyStale(s, o) == IF o \in {"gpu", "second"} /\ s.loaded # "none" THEN [s EXCEPT !.dev = "GPU", !.id = DApply(s, o).id] ELSE DApply(s, o)
\* and the first GPU ever asked for kept for good, even when it was refused.
DApplyFirst(s, o) == CASE o = "absent" /\ s.on = -1 -> [s EXCEPT !.on = 7]
                       [] o \in {"gpu", "second"} /\ s.on # -1 -> [DApply(s, o) EXCEPT !.on = s.on]
                       [] OTHER -> DApply(s, o)
\* Precision and GPU of the kernels a computation runs now; none on the CPU.
DKernels(s) == IF s.dev = "GPU" THEN {s.loaded} ELSE {}
DOn(s) == IF s.dev = "GPU" THEN {s.on} ELSE {}
RECURSIVE DAfter(_, _)
DAfter(s, h) == IF h = <<>> THEN s ELSE DAfter(DApply(s, Head(h)), Tail(h))
=============================================================================
