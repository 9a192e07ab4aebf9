------------------------------ MODULE Programs ------------------------------
(* A machine driven by time programmes.  A programme is a sequence of       *)
(* points [t |-> time, v |-> value]; the beam makes one turn after another, *)
(* each lasting the revolution period of the momentum at its start.         *)
EXTENDS Physics, FiniteSets
\* Value of a programme at time t: linear between points, constant outside.
Sample(ts, vs, t) ==
  LET n == Len(ts) IN
  IF RLe(t, ts[1]) THEN vs[1]
  ELSE IF RLe(ts[n], t) THEN vs[n]
  ELSE LET k == CHOOSE j \in 1..n-1 : RLe(ts[j], t) /\ RLt(t, ts[j+1]) IN
       RAdd(vs[k], RMul(RDiv(RSub(vs[k+1], vs[k]), RSub(ts[k+1], ts[k])), RSub(t, ts[k])))
BetaOfP(m, p) == RDiv("1.0", RSqrt(RAdd("1.0", Sq(RDiv(m.er, p)))))
EnergyOfP(m, p) == RSqrt(RAdd(Sq(p), Sq(m.er)))
Period(m, p) == RevPeriod(m, BetaOfP(m, p))
FieldOfP(m, p) == RDiv(p, RMul(RMul(m.rho, m.q), CLight))
\* One turn of the beam: at time u.t with momentum u.p, to the next turn.
NextTurn(m, ts, ps, u) == LET t == RAdd(u.t, Period(m, u.p)) IN [t |-> t, p |-> Sample(ts, ps, t)]
FirstTurn(m, ts, ps) == [t |-> RAdd(ts[1], Period(m, ps[1])), p |-> ps[1]]
SecondTurn(m, ts, ps) == NextTurn(m, ts, ps, FirstTurn(m, ts, ps))
\* The turns 1..n of the cycle.
TurnsUpTo(m, ts, ps, n) ==
  LET f[k \in 1..n] == IF k = 1 THEN FirstTurn(m, ts, ps) ELSE NextTurn(m, ts, ps, f[k-1])
  IN f
\* The recorded window: nt turns, whose turn number i0 (from 0) is the first
\* one not before the reference time.
WindowStart(turns, tref, i0) ==
  (CHOOSE k \in DOMAIN turns : /\ RLe(tref, turns[k].t)
                               /\ \A j \in DOMAIN turns : j < k => RLt(turns[j].t, tref)) - i0
\* Derivative of f on a non-uniform grid (second order inside, one-sided at the ends).
Gradient(f, x, k) ==
  LET n == Len(x) IN
  IF k = 1 THEN RDiv(RSub(f[2], f[1]), RSub(x[2], x[1]))
  ELSE IF k = n THEN RDiv(RSub(f[n], f[n-1]), RSub(x[n], x[n-1]))
  ELSE LET hd == RSub(x[k+1], x[k])  hs == RSub(x[k], x[k-1])
           l == RDiv(RSub(f[k], f[k-1]), hs)  r == RDiv(RSub(f[k+1], f[k]), hd) IN
       RDiv(RAdd(RMul(hd, l), RMul(hs, r)), RAdd(hd, hs))
\* Phase between the harmonics from the phase programmes of the two stations.
Phi12OfPhases(p1, p2, h) == RDiv(RAdd(RSub(p1, p2), PI), h)
\* ... and from the synchronous phase of the first harmonic alone.
Phi12OfRamp(m, bdot, v1, mode) ==
  RSub(RAdd(RAsin(RDiv(RMul(RMul(RMul(TwoPI, m.rho), m.R), bdot), v1)), RDiv(PI, m.h)),
       IF mode = 2 THEN PI ELSE "0.0")
=============================================================================
