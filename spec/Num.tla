-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic for TLC.  A real is a string holding a decimal literal  *)
(* of an IEEE double ("0.1", "-3.5E7"); integers are accepted wherever a   *)
(* real is.  The scalar operators have no TLA+ definition TLC can execute, *)
(* so they are evaluated by java/Num.java; the bulk operators below the    *)
(* line are ordinary TLA+ definitions that java/Num.java only accelerates  *)
(* (NumSelfTest compares the two).                                         *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

RAdd(x, y) == CHOOSE z : FALSE
RSub(x, y) == CHOOSE z : FALSE
RMul(x, y) == CHOOSE z : FALSE
RDiv(x, y) == CHOOSE z : FALSE
RPow(x, y) == CHOOSE z : FALSE
RSqrt(x) == CHOOSE z : FALSE
RSin(x) == CHOOSE z : FALSE
RCos(x) == CHOOSE z : FALSE
RAsin(x) == CHOOSE z : FALSE
RExp(x) == CHOOSE z : FALSE
RAbs(x) == CHOOSE z : FALSE
RNeg(x) == CHOOSE z : FALSE
RMax(x, y) == CHOOSE z : FALSE
RMin(x, y) == CHOOSE z : FALSE
RLt(x, y) == CHOOSE z : FALSE
RLe(x, y) == CHOOSE z : FALSE
REq(x, y) == CHOOSE z : FALSE
RFinite(x) == CHOOSE z : FALSE
RFloor(x) == CHOOSE z : FALSE
RCeil(x) == CHOOSE z : FALSE
RInt(x) == CHOOSE z : FALSE        \* truncation toward zero, as an integer
RFloat32(x) == CHOOSE z : FALSE    \* nearest single precision value
RClose(x, y, tol) == CHOOSE z : FALSE  \* |x-y| <= tol, neither is NaN
-----------------------------------------------------------------------------
DefNear(x, y, rtol, atol) == RClose(x, y, RAdd(atol, RMul(rtol, RMax(RAbs(x), RAbs(y)))))
RNear(x, y, rtol, atol) == DefNear(x, y, rtol, atol)
\* Defined in TLA+; accelerated by java/Num.java.
DefSum(v) == FoldLeft(LAMBDA a, b : RAdd(a, b), "0.0", v)
RSum(v) == DefSum(v)

DefSumSq(v) == FoldLeft(LAMBDA a, b : RAdd(a, RMul(b, b)), "0.0", v)
RSumSq(v) == DefSumSq(v)

DefMaxSeq(v) == FoldLeft(LAMBDA a, b : RMax(a, b), "-Infinity", v)
RMaxSeq(v) == DefMaxSeq(v)

\* The n-bin histogram of the weights w over the 0-based bin numbers idx.
DefScatter(idx, w, n) ==
  [k \in 1..n |-> DefSum([i \in 1..Len(idx) |-> IF idx[i] = k - 1 THEN w[i] ELSE "0.0"])]
RScatter(idx, w, n) == DefScatter(idx, w, n)

\* Element-wise sequence arithmetic.
DefDivS(v, s) == [k \in 1..Len(v) |-> RDiv(v[k], s)]
RDivS(v, s) == DefDivS(v, s)
DefMulS(v, s) == [k \in 1..Len(v) |-> RMul(v[k], s)]
RMulS(v, s) == DefMulS(v, s)
DefAddV(a, b) == [k \in 1..Len(a) |-> RAdd(a[k], b[k])]
RAddV(a, b) == DefAddV(a, b)
DefSubV(a, b) == [k \in 1..Len(a) |-> RSub(a[k], b[k])]
RSubV(a, b) == DefSubV(a, b)
DefMulV(a, b) == [k \in 1..Len(a) |-> RMul(a[k], b[k])]
RMulV(a, b) == DefMulV(a, b)
DefClipV(a) == [k \in 1..Len(a) |-> RMax(a[k], "0.0")]
RClipV(a) == DefClipV(a)
\* Sum over the rows j of p[j] at the 0-based position idx[j].
DefGather(p, idx) == DefSum([j \in 1..Len(idx) |-> p[j][idx[j] + 1]])
RGather(p, idx) == DefGather(p, idx)

DefCloseSeq(x, y, tol) == Len(x) = Len(y) /\ \A i \in 1..Len(x) : RClose(x[i], y[i], tol)
RCloseSeq(x, y, tol) == DefCloseSeq(x, y, tol)
=============================================================================
