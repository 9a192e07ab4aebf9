------------------------------ MODULE Machine ------------------------------
(***************************************************************************)
(* The turn programme of a machine.  The reference turn is computed from   *)
(* the machine's scalar parameters, then the programme grows upwards turn  *)
(* by turn to the last turn and downwards to turn 0.                       *)
(* m has the fields of Physics plus v1, v1dot, v2, v2dot, phi12, b0, bdot, *)
(* dt (turns per profile), np (profiles), ref (reference profile).         *)
(* A turn is a record [t, e, beta, phi, v1, v2].                           *)
(***************************************************************************)
EXTENDS Physics
VARIABLES mach, lo, hi, turns
mvars == <<mach, lo, hi, turns>>
NTurns(m) == m.dt * (m.np - 1)
RefTurn(m) == m.ref * m.dt
V1At(m, t) == RAdd(m.v1, RMul(m.v1dot, t))
V2At(m, t) == RAdd(m.v2, RMul(m.v2dot, t))
GainAt(m, n) == RMul(m.q, VRF(n.phi, V1At(m, n.t), V2At(m, n.t), m.h, m.phi12))
SynchAt(m, n) == Synchronous(m, n.phi, V1At(m, n.t), V2At(m, n.t), m.phi12, m.bdot)
\* n is the reference turn
IsReference(m, n) ==
  /\ REq(n.t, 0)
  /\ RNear(n.e, EnergyOfField(m, m.b0), "1e-12", 0)
  /\ SynchAt(m, n) /\ StableSide(m, n.e, n.phi, m.v1, m.v2, m.phi12)
\* b is the turn after a
Follows(m, a, b) ==
  /\ RNear(RSub(b.t, a.t), RevPeriod(m, a.beta), "1e-8", RMul("1e-12", RAbs(b.t)))
  /\ SynchAt(m, b)
  /\ RNear(b.e, RAdd(a.e, GainAt(m, b)), "4e-15", "1e-9")
BetaOK(m, n) == RNear(n.beta, Beta(m, n.e), "1e-13", 0)

\* The programme as a state machine: Step functions supply the next turn.
Begin(m, n) == /\ mach = m /\ lo = RefTurn(m) /\ hi = RefTurn(m)
               /\ IsReference(m, n) /\ BetaOK(m, n)
               /\ turns = [k \in {RefTurn(m)} |-> n]
Up(n) == /\ hi < NTurns(mach)
         /\ Follows(mach, turns[hi], n) /\ BetaOK(mach, n)
         /\ hi' = hi + 1
         /\ turns' = [k \in lo..hi+1 |-> IF k = hi + 1 THEN n ELSE turns[k]]
         /\ UNCHANGED <<mach, lo>>
Down(n) == /\ hi = NTurns(mach) /\ lo > 0
           /\ Follows(mach, n, turns[lo]) /\ BetaOK(mach, n)
           /\ lo' = lo - 1
           /\ turns' = [k \in lo-1..hi |-> IF k = lo - 1 THEN n ELSE turns[k]]
           /\ UNCHANGED <<mach, hi>>
Complete == lo = 0 /\ hi = NTurns(mach)
=============================================================================
