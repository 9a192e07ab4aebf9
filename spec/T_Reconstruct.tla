--------------------------- MODULE T_Reconstruct ---------------------------
(* Conformance of recorded reconstructions.  A record holds the inputs and  *)
(* one observation per requested number of iterations (outcome, weights,    *)
(* recreated waterfall, discrepancies) per run mode; the specification is   *)
(* stepped through the algorithm and every observation is compared with the *)
(* state reached after that many iterations.                                *)
EXTENDS Reconstruct, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, n, failed
tvars == <<c, n, failed>>
T == Cases[c]
TInit == /\ c = 1 /\ n = 0 /\ failed = FALSE
         /\ xp = <<>> /\ meas = <<>> /\ use = <<>> /\ mult = <<>> /\ cols = <<>> /\ recip = <<>> /\ w = <<>>
         /\ rec = <<>> /\ corr = <<>> /\ top = "0.0" /\ diffs = <<>> /\ ph = "prep"
Say(v) == PrintT(<<"@V", T.id, v>>)
Load == /\ c <= Len(Cases) /\ ph = "prep"
        /\ PrepareAs(T.raw, T.xp, [i \in 1..Len(T.xp) |-> TRUE], IF "mult" \notin DOMAIN T \/ T.mult = <<>> THEN Ones(Len(T.xp)) ELSE T.mult)
        /\ n' = 0 /\ failed' = FALSE /\ UNCHANGED c

Tol(x) == RAdd(T.atol, RMul(T.rtol, RMax(RAbs(x), "1e-30")))
CloseV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : RClose(a[i], b[i], Tol(b[i]))
WScale == RMaxSeq(w)
CloseW(a) == /\ Len(a) = Len(w)
             /\ RCloseSeq(a, w, RMul(T.rtol, RAdd(WScale, "1.0")))
CloseR(a) == /\ Len(a) = NP
             /\ \A j \in 1..NP : RCloseSeq(a[j], rec[j], T.rtol)
ObsAt(k) == {o \in DOMAIN T.obs : T.obs[o].niter = k}

Judge(o) ==
  LET ob == T.obs[o]
  IN  IF ob.outcome # "ok" THEN "bad:rejected a reconstructible input|" \o ob.mode
      ELSE IF Len(ob.w) # Len(w) THEN "bad:number of weights|" \o ob.mode
      ELSE IF "uneven" \in DOMAIN ob /\ ~RLe(ob.uneven, RMul(T.rtol, RAdd(WScale, "1.0"))) THEN "bad:particles of one trajectory weigh differently|" \o ob.mode
      ELSE IF ~CloseW(ob.w) THEN "bad:weights|" \o ob.mode
      ELSE IF ~CloseR(ob.rec) THEN "bad:recreated waterfall|" \o ob.mode
      ELSE IF ~CloseV(ob.diff, diffs) THEN "bad:discrepancy history|" \o ob.mode
      ELSE "ok:" \o ob.mode
JudgeDead(o) ==
  LET ob == T.obs[o]
  IN IF ob.outcome = "ok" THEN "bad:returned a result although all weight vanished|" \o ob.mode
     ELSE "ok:vanished " \o ob.mode

Observe ==
  IF failed THEN TRUE
  ELSE \A o \in ObsAt(n) : Say(Judge(o))

Step == /\ c <= Len(Cases) /\ ph \in {"amp", "bp0", "proj"} /\ ~(ph = "proj" /\ Fragile)
        /\ RStep /\ UNCHANGED <<c, n, failed>>
\* ph = "corr": state after n iterations is complete -> compare, then iterate.
Compare == /\ c <= Len(Cases) /\ ph = "corr" /\ n < T.maxiter
           /\ Observe
           /\ Correct /\ n' = n + 1 /\ UNCHANGED <<c, failed>>
Finish == /\ c <= Len(Cases) /\ ph = "corr" /\ n = T.maxiter
          /\ Observe
          /\ c' = c + 1 /\ ph' = "prep"
          /\ UNCHANGED <<n, failed, xp, mult, use, meas, cols, recip, w, rec, corr, top, diffs>>
Dead == /\ c <= Len(Cases) /\ ph = "dead" /\ ~Fragile
        /\ \A o \in DOMAIN T.obs : T.obs[o].niter >= n => Say(JudgeDead(o))
        /\ c' = c + 1 /\ ph' = "prep"
        /\ UNCHANGED <<n, failed, xp, mult, use, meas, cols, recip, w, rec, corr, top, diffs>>
Give == /\ c <= Len(Cases) /\ ph \in {"dead", "proj"} /\ Fragile
        /\ Say("skip:weight vanishes within rounding")
        /\ c' = c + 1 /\ ph' = "prep" /\ UNCHANGED <<n, failed, xp, mult, use, meas, cols, recip, w, rec, corr, top, diffs>>
End == /\ c = Len(Cases) + 1 /\ ph = "prep"
       /\ PrintT(<<"@DONE", Len(Cases)>>) /\ c' = c + 1 /\ ph' = "end"
       /\ UNCHANGED <<n, failed, xp, mult, use, meas, cols, recip, w, rec, corr, top, diffs>>
TNext == Load \/ Step \/ Compare \/ Finish \/ Dead \/ Give \/ End
TSpec == TInit /\ [][TNext]_<<rvars, tvars>>
=============================================================================
