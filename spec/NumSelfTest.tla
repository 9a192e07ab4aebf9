---------------------------- MODULE NumSelfTest ----------------------------
(* The accelerated bulk operators agree with their TLA+ definitions.        *)
EXTENDS Num, TLC
V == << "0.1", "-2.5", "7.25", "1.0E-3", "0.1" >>
X == << 0, 2, 2, 1, 0 >>
ASSUME RSum(V) = DefSum(V)
ASSUME RSumSq(V) = DefSumSq(V)
ASSUME RMaxSeq(V) = DefMaxSeq(V)
ASSUME RCloseSeq(RScatter(X, V, 4), DefScatter(X, V, 4), "1E-12")
ASSUME RScatter(X, V, 4)[4] = "0.0"
ASSUME ~RCloseSeq(V, << "0.1", "-2.5", "7.25", "1.0E-3", "0.2" >>, "1E-12")
ASSUME ~RCloseSeq(<<"NaN">>, <<"NaN">>, "1E-12")
W == << "3.0", 2, "0.5", "-1.0", "4.0" >>
ASSUME RCloseSeq(RDivS(V, "3.0"), DefDivS(V, "3.0"), 0) /\ RCloseSeq(RMulS(V, "3.0"), DefMulS(V, "3.0"), 0)
ASSUME RCloseSeq(RAddV(V, W), DefAddV(V, W), 0) /\ RCloseSeq(RSubV(V, W), DefSubV(V, W), 0)
ASSUME RCloseSeq(RMulV(V, W), DefMulV(V, W), 0) /\ RCloseSeq(RClipV(V), DefClipV(V), 0)
ASSUME RGather(<<V, W, V>>, <<1, 3, 4>>) = DefGather(<<V, W, V>>, <<1, 3, 4>>)
ASSUME RClose(RSin("0.5"), "0.479425538604203", "1E-12")
ASSUME RNear("100.0", "100.05", "1e-3", 0) = DefNear("100.0", "100.05", "1e-3", 0)
ASSUME RNear("1.0", "1.1", "1e-3", 0) = DefNear("1.0", "1.1", "1e-3", 0) /\ ~RNear("NaN", "NaN", 1, 1)
ASSUME RInt("-3.7") = -3 /\ RFloor("-3.7") = "-4.0"
VARIABLE x
Init == x = 0
Next == UNCHANGED x
=============================================================================
