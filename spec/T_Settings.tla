------------------------------ MODULE T_Settings ------------------------------
(* T.ops as in Settings; T.seen[k]: the settings of every machine after the   *)
(* k-th, in the order they were built.  T.late: per machine with a constant   *)
(* field, its programme when computed on request ("none" before), and that of *)
(* a machine built with every setting spelled out.                            *)
EXTENDS TraceLoop, Settings
Same(x, y) == IF x = "none" \/ y = "none" \/ SubSeq(x, 1, 1) = "/" \/ SubSeq(y, 1, 1) = "/" THEN x = y ELSE REq(x, y)
Wrong(s, o) == {n \in DOMAIN s : n \notin DOMAIN o \/ ~Same(s[n], o[n])}
At(T, k) == LET ms == SAfter(<<>>, SubSeq(T.ops, 1, k)) o == T.seen[k]
  IN FirstBad(<< <<Len(o) = Len(ms), "machine built">>,
                 <<\A i \in 1..Len(ms) : Wrong(ms[i], o[i]) = {}, "settings given or documented default">> >>, "settings")
SeVerdicts(T) ==
  {At(T, k) : k \in 1..Len(T.ops)} \cup
  {FirstBad(<< <<l.before, "nothing computed before it is asked for">>,
               <<l.late = l.full, "programme of the machine with every setting spelled out">> >>, "late") : l \in ToSet(T.late)}
=============================================================================
