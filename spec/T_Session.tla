------------------------------- MODULE T_Session -------------------------------
(* T.ops as in Session.  T.seen[k]: for an operation with a result, its       *)
(* outcome, the form (shapes and types) and the numbers of each array, and    *)
(* the tag under which the same was computed once more, by a process that had *)
(* done nothing before.  T.fresh: what came out of those, in the order of     *)
(* T.seen.                                                                    *)
EXTENDS TraceLoop, Session
Tol(prec) == IF prec = "single" THEN "1e-5" ELSE "1e-10"
Largest(q) == LET RECURSIVE m(_) m(k) == IF k = 0 THEN "0.0" ELSE RMax(RAbs(q[k]), m(k - 1)) IN m(Len(q))
Alike(a, b, prec) == /\ Len(a) = Len(b)
                     /\ \A i \in 1..Len(a) : a[i] = b[i] \/ RCloseSeq(a[i], b[i], RMul(Tol(prec), Largest(b[i])))
Same(x, y, prec) == FirstBad(<< <<x.outcome = y.outcome, "same outcome as in a new process">>,
                                <<x.form = y.form, "same form as in a new process">>,
                                <<Alike(x.vals, y.vals, prec), "same result as in a new process">> >>, "fresh")
At(T, k) ==
  LET s == SessionAfter(EmptySession, SubSeq(T.ops, 1, k - 1))
      o == T.ops[k]
      t == SessionTag(s, o)
  IN IF t = <<>> THEN {}
     ELSE IF t # T.seen[k].tag THEN {"bad:recorded tag is not that of the specification"}
     ELSE {IF T.seen[k].outcome = "ok" \/ T.fresh[k].outcome = "ok" THEN Same(T.seen[k], T.fresh[k], s.prec)
           ELSE IF T.seen[k].outcome = T.fresh[k].outcome THEN "triv:refused alike" ELSE "bad:refused alike"}
SnVerdicts(T) == UNION {At(T, k) : k \in 1..Len(T.ops)}
=============================================================================
