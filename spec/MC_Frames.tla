----------------------------- MODULE MC_Frames ------------------------------
(* All small layouts, valid and not, and all small rebinnings.              *)
EXTENDS Frames, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxLen, MaxBins
VARIABLES f, rb
Layouts == [n : 0..MaxN, len : 0..MaxLen, skip : -1..MaxN, sl : -1..MaxLen, se : -1..MaxLen, rebin : {0, 1}]
Init == /\ f \in Layouts /\ rb \in {<<n, r>> : n \in 1..MaxBins, r \in 1..MaxBins}
        /\ \/ rb = <<1, 1>> \/ f = [n |-> 1, len |-> 1, skip |-> 0, sl |-> 0, se |-> 0, rebin |-> 1]
Emit == /\ rb = <<1, 1>> => PrintT(<<"@G", ToJson([kind |-> "layout", f |-> f])>>)
        /\ (rb # <<1, 1>> /\ rb[2] <= rb[1]) => PrintT(<<"@G", ToJson([kind |-> "rebin", n |-> rb[1], r |-> rb[2]])>>)
Next == Emit /\ UNCHANGED <<f, rb>>
Spec == Init /\ [][Next]_<<f, rb>>
Cells == (1..NProfs(f)) \X (1..NBins(f))
EverySampleOnce == FrameValid(f) =>
   /\ NProfs(f) >= 1 /\ NBins(f) >= 1
   /\ \A c \in Cells : RawIndex(f, c[1], c[2]) \in 1..(f.n * f.len)
   /\ Cardinality({RawIndex(f, c[1], c[2]) : c \in Cells}) = Cardinality(Cells)
   /\ \A c, d \in Cells : (c[1] < d[1] \/ (c[1] = d[1] /\ c[2] < d[2])) => RawIndex(f, c[1], c[2]) < RawIndex(f, d[1], d[2])
GroupsCover == LET n == rb[1] r == rb[2] IN r <= n =>
   /\ UNION {GroupOf(n, r, k) : k \in 1..NewBins(n, r)} = 1..n
   /\ n % r = 0 => \A k, m \in 1..NewBins(n, r) : k # m => GroupOf(n, r, k) \cap GroupOf(n, r, m) = {}
=============================================================================
