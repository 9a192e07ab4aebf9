-------------------------------- MODULE Cuts --------------------------------
(***************************************************************************)
(* Automatic cuts, cutting, and filtering of empty profiles.  A waterfall  *)
(* is a sequence of profiles; bins are numbered from 0.                    *)
(***************************************************************************)
EXTENDS Num, FiniteSets
NB(w) == Len(w[1])
\* change at bin k -> k+1 (k counted from 1 here), summed over the profiles, above its minimum
Change(w) == [k \in 1..NB(w)-1 |-> RSum([i \in 1..Len(w) |-> RAbs(RSub(w[i][k+1], w[i][k]))])]
MinSeq(v) == RNeg(RMaxSeq([k \in 1..Len(v) |-> RNeg(v[k])]))
Rise(w) == LET ch == Change(w) lo == MinSeq(ch) IN [k \in 1..Len(ch) |-> RSub(ch[k], lo)]
Threshold(w, thr) == IF thr = "none" THEN RMul("0.3", RMaxSeq(Rise(w))) ELSE thr
Active(w, thr) == LET r == Rise(w) t == Threshold(w, thr) IN {k \in 1..Len(r) : RLt(t, r[k])}
\* some change is as large as the threshold (the smallest change is exactly zero, and never above a threshold of zero)
Close(w, thr) == LET r == Rise(w) t == Threshold(w, thr)
                     zero == {k \in 1..Len(r) : REq(r[k], "0.0")}
                     K == IF REq(t, "0.0") /\ Cardinality(zero) = 1 THEN (1..Len(r)) \ zero ELSE 1..Len(r)
                 IN \E k \in K : RClose(r[k], t, RMul("1e-9", RMax("1e-300", RAdd(RAbs(t), RMaxSeq(r)))))
FirstOf(S) == CHOOSE x \in S : \A y \in S : x <= y
LastOf(S) == CHOOSE x \in S : \A y \in S : x >= y
MinI(a, b) == IF a < b THEN a ELSE b
MaxI(a, b) == IF a > b THEN a ELSE b
\* Bins [left, right): margin bins before the first and after the last change
\* (the right limit one bin further), inside the data; everything if nothing changes.
CutLeft(w, thr, margin) == LET A == Active(w, thr) IN IF A = {} THEN 0 ELSE MaxI(0, FirstOf(A) - 1 - margin)
CutRight(w, thr, margin) == LET A == Active(w, thr) IN IF A = {} THEN NB(w) ELSE MinI(NB(w), LastOf(A) - 1 + 3 + margin)
\* Cutting; a negative right limit counts from the end.
RightBin(n, r) == IF r < 0 THEN n + r ELSE r
CutOk(n, l, r) == l >= 0 /\ r >= -n /\ r <= n /\ RightBin(n, r) > l
CutRow(v, l, r) == SubSeq(v, l + 1, RightBin(Len(v), r))
\* Profiles kept: those whose share of the total exceeds max - min - mean of the shares.
Total(w) == RSum([i \in 1..Len(w) |-> RSum(w[i])])
Share(w) == [i \in 1..Len(w) |-> RDiv(RSum(w[i]), Total(w))]
ShareLimit(w) == LET s == Share(w) IN RSub(RSub(RMaxSeq(s), MinSeq(s)), RDiv(RSum(s), Len(s)))
Kept(w) == LET s == Share(w) t == ShareLimit(w) IN SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : RLt(t, s[i]))
ShareEdge(w) == LET s == Share(w) t == ShareLimit(w) IN \E i \in 1..Len(s) : RClose(s[i], t, "1e-9")
=============================================================================
