----------------------------- MODULE T_Sampling -----------------------------
EXTENDS TraceLoop, Sampling
Bins(v) == RSub(v[2], v[1])
\* a count of n trials of probability p lies within 6.5 standard deviations
Plausible(count, n, p) == RLe(RAbs(RSub(count, RMul(n, p))), RAdd("3", RMul("6.5", RSqrt(RMul(n, RMul(p, RSub("1", p)))))))
Halves(v) == \A k \in 1..4 : Plausible(v[k], RSum(v), "0.25")
SetToSeq2(S, f(_)) == LET q == SetToSeq(S) IN [k \in 1..Len(q) |-> f(q[k])]
SampP(T, op, pr, whole) ==
  LET d == T.d
      tie == \E i \in Cols(d), j \in Rows(d) : RClose(RDiv(d[i][j], whole), T.thr, "1e-12") /\ ~REq(T.thr, "0")
  IN
     IF tie /\ ~T.exact THEN "trivial:cell exactly at the threshold"
     ELSE IF op = {} THEN FirstBad(<<<<T.outcome = "error", "a density without any cell left is refused">>>>, "nothing left")
     ELSE FirstBad(<<
       <<T.outcome = "ok", "particles are drawn">>,
       <<T.same, "given arrays unchanged">>,
       <<T.nt = T.n /\ T.ne = T.n, "number of particles">>,
       <<\A k \in 1..Len(T.dt) : \E o \in op : Within(T.dt[k], T.t[o[1]], Bins(T.t)) /\ Within(T.de[k], T.e[o[2]], Bins(T.e)), "particle inside a populated cell">>,
       <<T.outside = 0, "particles inside the image">>,
       <<\A i \in Cols(d), j \in Rows(d) : Plausible(T.count[i][j], T.n, pr[i][j]), "share of each cell">>,
       <<\E faint \in {{o \in op : RLt(RMul(pr[o[1]][o[2]], Cardinality(op)), "0.5")}} :
           Plausible(RSum(SetToSeq2(faint, LAMBDA o : T.count[o[1]][o[2]])), T.n, RSum(SetToSeq2(faint, LAMBDA o : pr[o[1]][o[2]]))), "share of the faint cells together">>,
       <<\A i \in Cols(d), j \in Rows(d) : <<i, j>> \notin op => T.count[i][j] = 0, "empty cell">>,
       <<Halves(T.quad), "quarters of the cells">>,
       <<Halves(T.tstrip) /\ Halves(T.estrip), "strips of the cells">> >>, "drawn")
SampV(T) == CHOOSE v \in {SampP(T, q[1], q[2], q[3]) : q \in {<<Open(T.d, T.thr), ProbM(T.d, T.thr), Whole(T.d)>>}} : TRUE
SaVerdicts(T) == {SampV(T)}
=============================================================================
