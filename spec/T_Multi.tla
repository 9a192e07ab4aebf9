------------------------------- MODULE T_Multi -------------------------------
(* Conformance of recorded multi-bunch reconstructions; as T_Reconstruct,   *)
(* on the repeated and shifted particle set.                                *)
EXTENDS Reconstruct, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, n, splits
tvars == <<c, n, splits>>
T == Cases[c]
NBunch == Len(T.centers)
TInit == /\ c = 1 /\ n = 0 /\ splits = <<>>
         /\ xp = <<>> /\ use = <<>> /\ mult = <<>> /\ meas = <<>> /\ cols = <<>> /\ recip = <<>> /\ w = <<>>
         /\ rec = <<>> /\ corr = <<>> /\ top = "0.0" /\ diffs = <<>> /\ ph = "prep"
Say(v) == PrintT(<<"@V", T.id, v>>)
Load == /\ c <= Len(Cases) /\ ph = "prep"
        /\ PrepareMasked(T.raw, MultiCoords(T.xp, T.centers), MultiMask(T.xp, T.centers, T.cutl, T.cutr))
        /\ n' = 0 /\ splits' = <<>> /\ UNCHANGED c
OnBound == \E b \in 1..NBunch : \E i \in 1..Len(T.xp) : \E j \in 1..NP :
             T.xp[i][j] + T.centers[b] \in {T.cutl[b], T.cutr[b]}
ObsAt(k) == {o \in DOMAIN T.obs : T.obs[o].niter = k}
CloseW(a) == RCloseSeq(a, w, RMul(T.rtol, RAdd(RMaxSeq(w), "1.0")))
CloseR(a) == Len(a) = NP /\ \A j \in 1..NP : RCloseSeq(a[j], rec[j], T.rtol)
SplitOk(s) == /\ Len(s) = NBunch
              /\ \A b \in 1..NBunch : RCloseSeq(s[b], [k \in 1..Len(splits) |-> splits[k][b]], T.rtol)
Judge(o) ==
  LET ob == T.obs[o] IN
  IF ob.mode # "run" /\ OnBound THEN "skip:hybrid with a particle on a cut"
  ELSE IF ob.outcome # "ok" THEN "bad:rejected a reconstructible input|" \o ob.mode
  ELSE IF Len(ob.w) # Len(w) THEN "bad:number of weights|" \o ob.mode
  ELSE IF ~CloseW(ob.w) THEN "bad:weights|" \o ob.mode
  ELSE IF ~CloseR(ob.rec) THEN "bad:recreated waterfall|" \o ob.mode
  ELSE IF ~RCloseSeq(ob.diff, diffs, T.rtol) THEN "bad:discrepancy history|" \o ob.mode
  ELSE IF ob.hassplit /\ ~SplitOk(ob.split) THEN "bad:discrepancy per bunch|" \o ob.mode
  ELSE "ok:" \o ob.mode
JudgeDead(o) ==
  LET ob == T.obs[o] IN
  IF ob.mode # "run" /\ OnBound THEN "skip:hybrid with a particle on a cut"
  ELSE IF ob.outcome = "ok" THEN "bad:returned a result although all weight vanished|" \o ob.mode
  ELSE "ok:vanished " \o ob.mode
Observe == \A o \in ObsAt(n) : Say(Judge(o))
KeepR == UNCHANGED <<xp, mult, use, meas, cols, recip, w, rec, corr, top, diffs>>
Step == /\ c <= Len(Cases) /\ ph \in {"amp", "bp0", "proj"} /\ ~(ph = "proj" /\ Fragile) /\ RStep
        /\ splits' = IF ph = "proj" THEN Append(splits, [b \in 1..NBunch |->
                         WindowRMS(meas, rec', T.cutl[b], T.cutr[b])]) ELSE splits
        /\ UNCHANGED <<c, n>>
Compare == /\ c <= Len(Cases) /\ ph = "corr" /\ n < T.maxiter /\ Observe
           /\ Correct /\ n' = n + 1 /\ UNCHANGED <<c, splits>>
Finish == /\ c <= Len(Cases) /\ ph = "corr" /\ n = T.maxiter /\ Observe
          /\ c' = c + 1 /\ ph' = "prep" /\ UNCHANGED <<n, splits>> /\ KeepR
Dead == /\ c <= Len(Cases) /\ ph = "dead" /\ ~Fragile
        /\ \A o \in DOMAIN T.obs : T.obs[o].niter >= n => Say(JudgeDead(o))
        /\ c' = c + 1 /\ ph' = "prep" /\ UNCHANGED <<n, splits>> /\ KeepR
Give == /\ c <= Len(Cases) /\ ph \in {"dead", "proj"} /\ Fragile
        /\ Say("skip:weight vanishes within rounding")
        /\ c' = c + 1 /\ ph' = "prep" /\ UNCHANGED <<n, splits>> /\ KeepR
End == /\ c = Len(Cases) + 1 /\ ph = "prep"
       /\ PrintT(<<"@DONE", Len(Cases)>>) /\ c' = c + 1 /\ ph' = "end"
       /\ UNCHANGED <<n, splits>> /\ KeepR
TNext == Load \/ Step \/ Compare \/ Finish \/ Dead \/ Give \/ End
TSpec == TInit /\ [][TNext]_<<rvars, tvars>>
=============================================================================
