------------------------------ MODULE Physics ------------------------------
(* The longitudinal beam dynamics the package implements (C. Hjerto         *)
(* Grindheim and S. Albright; Hancock et al. 2000).  A machine is a record  *)
(* m with scalar parameters R (mean orbit radius), rho (bending radius),    *)
(* gt (transition gamma), er (rest energy), q, hn (harmonic number),        *)
(* h (harmonic ratio).                                                      *)
EXTENDS Num
PI == "3.141592653589793"
TwoPI == "6.283185307179586"
CLight == "2.99792458E8"
QElem == "1.602176634E-19"
Sq(x) == RMul(x, x)
RSign(x) == IF RLt(0, x) THEN 1 ELSE IF RLt(x, 0) THEN -1 ELSE 0

Momentum(m, b) == RMul(RMul(RMul(m.q, b), m.rho), CLight)
EnergyOfField(m, b) == RSqrt(RAdd(Sq(Momentum(m, b)), Sq(m.er)))
Beta(m, e) == RSqrt(RSub("1.0", Sq(RDiv(m.er, e))))
Eta(m, beta) == RSub(RSub("1.0", Sq(beta)), RPow(m.gt, "-2.0"))
DriftCoef(m, e, beta, eta) == RDiv(RMul(RMul(RMul(TwoPI, m.hn), eta), "1.0"), RMul(e, Sq(beta)))
RevPeriod(m, beta) == RDiv(RMul(TwoPI, m.R), RMul(beta, CLight))
OmegaRev(m, beta) == RDiv(RMul(beta, CLight), m.R)
\* RF voltage and its slope; v1, v2 at that turn.
VRF(phi, v1, v2, h, phi12) == RAdd(RMul(v1, RSin(phi)), RMul(v2, RSin(RMul(h, RSub(phi, phi12)))))
DVRF(phi, v1, v2, h, phi12) == RAdd(RMul(v1, RCos(phi)), RMul(RMul(h, v2), RCos(RMul(h, RSub(phi, phi12)))))
\* The voltage a synchronous particle must see to follow the field ramp.
RampVoltage(m, bdot) == RMul(RMul(RMul(RMul(TwoPI, m.R), m.rho), bdot), RSign(m.q))
VoltScale(v1, v2, h) == RAdd(RAbs(v1), RMul(Sq(h), RAbs(v2)))
\* phi is a synchronous phase.  The code searches by Newton steps until a
\* step is below 1e-4, so the remaining error is second order in 1e-4.
Synchronous(m, phi, v1, v2, phi12, bdot) ==
  RLe(RAbs(RSub(VRF(phi, v1, v2, m.h, phi12), RampVoltage(m, bdot))),
      RMul("4e-8", VoltScale(v1, v2, m.h)))
BelowTransition(m, e) == RLt(0, RMul(m.q, RSub(m.gt, RDiv(e, m.er))))
\* Below transition the stable phase is on the rising slope of the voltage.
StableSide(m, e, phi, v1, v2, phi12) ==
  RLt(RMul(RMul(m.h, RAbs(v2)), 2), RAbs(v1)) =>
     (BelowTransition(m, e) <=> RLt(0, DVRF(phi, v1, v2, m.h, phi12)))
\* Difference of the two ends of a bunch of length L starting at phase p.
PhaseLow(p, L, v1, v2, h, phi12, vs) ==
  RAdd(RAdd(RMul(v1, RSub(RCos(RAdd(p, L)), RCos(p))),
            RDiv(RMul(v2, RSub(RCos(RMul(h, RSub(RAdd(p, L), phi12))), RCos(RMul(h, RSub(p, phi12))))), h)),
       RMul(L, vs))
DPhaseLow(p, L, v1, v2, h, phi12) ==
  RSub(RNeg(RMul(v2, RSub(RSin(RMul(h, RSub(RAdd(p, L), phi12))), RSin(RMul(h, RSub(p, phi12)))))),
       RMul(v1, RSub(RSin(RAdd(p, L)), RSin(p))))
SelfFieldCoef(m, g, zw, dtbin, omega, beta) ==
  RDiv(RMul(RDiv(QElem, omega),
            RSub(RMul(RMul(RMul(RSub(RDiv("1.0", beta), beta), g), PI), RMul("2.0e-7", CLight)), zw)),
       Sq(dtbin))
=============================================================================
