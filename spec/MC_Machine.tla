----------------------------- MODULE MC_Machine -----------------------------
(* Small machines, every reference profile.  The next turn is constructed   *)
(* (constant phase: no second harmonic, no voltage ramp; the phase is the   *)
(* solution by construction of bdot).  Invariants: the programme does not   *)
(* depend on the profile it was computed from, energies telescope and time  *)
(* is increasing.                                                           *)
EXTENDS Machine, TLC, Json
CONSTANTS MaxProf, MaxDt
VARIABLES base   \* programme of the same machine computed from profile 0
PHIS == "0.4"
M0(np, dt, r, q) == [R |-> "25.0", rho |-> "8.239", gt |-> "4.1", er |-> "9.3827231E8", q |-> q, hn |-> 1,
   h |-> "2.0", v1 |-> "6000.0", v1dot |-> "0.0", v2 |-> "0.0", v2dot |-> "0.0", phi12 |-> "0.1",
   b0 |-> "0.3", bdot |-> RDiv(RMul("6000.0", RSin(PHIS)), RMul(RMul(TwoPI, "25.0"), "8.239")),
   dt |-> dt, np |-> np, ref |-> r]
Gain(m) == RMul(m.q, RMul(m.v1, RSin(PHIS)))
Mk(m, t, e) == [t |-> t, e |-> e, beta |-> Beta(m, e), phi |-> PHIS]
RECURSIVE Nth(_, _)
Nth(m, n) == IF n = 0 THEN Mk(m, "0.0", EnergyOfField(m, m.b0))
             ELSE LET p == Nth(m, n - 1) IN
                  Mk(m, RAdd(p.t, RevPeriod(m, p.beta)), RAdd(p.e, Gain(m)))
\* field of a given energy
FieldOf(m, e) == RDiv(RSqrt(RSub(Sq(e), Sq(m.er))), RMul(RMul(m.q, m.rho), CLight))
MInit == \E np \in 2..MaxProf, dt \in 1..MaxDt, q \in {1, 2} : \E r \in 0..np-1 :
           LET m0 == M0(np, dt, r, q)
               b == [n \in 0..NTurns(m0) |-> Nth(m0, n)]
               m == [m0 EXCEPT !.b0 = FieldOf(m0, b[RefTurn(m0)].e)] IN
           /\ base = b
           /\ Begin(m, Mk(m, "0.0", EnergyOfField(m, m.b0)))
           /\ PrintT(<<"@G", ToJson([np |-> np, dt |-> dt, ref |-> r, q |-> q])>>)
MUp == LET a == turns[hi] IN Up(Mk(mach, RAdd(a.t, RevPeriod(mach, a.beta)), RAdd(a.e, Gain(mach))))
MDown == LET b == turns[lo]
             e == RSub(b.e, Gain(mach)) IN
         Down(Mk(mach, RSub(b.t, RevPeriod(mach, Beta(mach, e))), e))
MNext == (MUp \/ MDown) /\ UNCHANGED base
MSpec == MInit /\ [][MNext]_<<mvars, base>> /\ WF_mvars(MNext)
ReferenceIndependent ==
  \A k \in lo..hi : /\ RNear(turns[k].e, base[k].e, "1e-12", 0)
                    /\ RNear(RSub(turns[k].t, turns[RefTurn(mach)].t),
                             RSub(base[k].t, base[RefTurn(mach)].t), "1e-9", "1e-18")
TimeIncreases == \A k \in lo..hi-1 : RLt(turns[k].t, turns[k+1].t)
Finishes == <>Complete
=============================================================================
