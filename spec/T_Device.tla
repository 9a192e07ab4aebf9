------------------------------ MODULE T_Device ------------------------------
(* "history": T.ops applied one after the other; T.obs[k] is what was seen  *)
(* after the first k: whether the selection was accepted, the device and    *)
(* precision reported, the precisions of the kernels launched by a          *)
(* computation, [GPU they were loaded on, GPU selected at the launch], the  *)
(* type of its results.                                                     *)
(* "launches": T.launches, [name, divergent].                               *)
(* "shape": sizes of a result, T.got and T.want.                            *)
EXTENDS TraceLoop, Device, Num
Seen(T, k) == LET s == DAfter(DFresh, SubSeq(T.ops, 1, k)) o == T.obs[k]
  IN FirstBad(<<
       <<o.select = (IF DRefused(T.ops[k]) THEN "error" ELSE "ok"), "selection accepted, an absent GPU refused">>,
       <<o.outcome = "ok", "computation accepted">>,
       <<o.dev = s.dev, "device selected last">>,
       <<o.prec = s.prec, "precision selected last">>,
       <<ToSet(o.kernels) = DKernels(s), "precision of the kernels run">>,
       <<ToSet(o.on) = {<<i, i>> : i \in DOn(s)}, "kernels run on the GPU selected last">>,
       <<ToSet(o.dtypes) = {s.prec}, "precision of the results">> >>, "history")
DevVerdicts(T) ==
  CASE T.kind = "history" -> {Seen(T, k) : k \in 1..Len(T.ops)}
    [] T.kind = "launches" -> {FirstBad(<< <<\A i \in 1..Len(T.launches) : ~T.launches[i].divergent, "all threads of a block reach every barrier">> >>, "launches")}
    [] T.kind = "shape" -> {FirstBad(<< <<T.got = T.want, "shape of the result">> >>, "shape")}
=============================================================================
