------------------------------ MODULE T_Result ------------------------------
(* Self-consistency of finished reconstructions (any size).  A record is a  *)
(* history of runs on one object; every run reports weights, recreated      *)
(* waterfall and discrepancies.  The final Project step of Reconstruct is   *)
(* re-taken from the *observed* weights.                                    *)
EXTENDS Reconstruct, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLES c, r, hist
tvars == <<c, r, hist>>
T == Cases[c]
Run == T.runs[r]
TInit == /\ c = 1 /\ r = 1 /\ hist = <<>>
         /\ xp = <<>> /\ meas = <<>> /\ use = <<>> /\ mult = <<>> /\ cols = <<>> /\ recip = <<>> /\ w = <<>>
         /\ rec = <<>> /\ corr = <<>> /\ top = "0.0" /\ diffs = <<>> /\ ph = "prep"
Say(v) == PrintT(<<"@V", T.id, v>>)
Keep == UNCHANGED <<xp, mult, use, meas, cols, recip, corr, top, diffs>>
Load == /\ c <= Len(Cases) /\ ph = "prep" /\ Prepare(T.raw, T.xp)
        /\ UNCHANGED c /\ r' = 1 /\ hist' = <<>>
\* Adopt the observed weights of run r as the model's weights, then Project.
Adopt == /\ ph = "amp" /\ r <= Len(T.runs) /\ Run.outcome = "ok"
         /\ w' = Run.w /\ ph' = "proj" /\ UNCHANGED <<c, r, hist, rec>> /\ Keep
Finite2(m) == \A j \in 1..Len(m) : \A k \in 1..Len(m[j]) : RFinite(m[j][k])
Weights == IF Len(w) # Len(xp) THEN "bad:number of weights"
           ELSE IF \E i \in 1..Len(w) : ~RFinite(w[i]) THEN "bad:weight not finite"
           ELSE IF \E i \in 1..Len(w) : RLt(w[i], "0.0") THEN "bad:negative weight"
           ELSE IF RLe(RSum(w), "0.0") THEN "bad:no weight left"
           ELSE "ok:weights"
Take == /\ ph = "proj" /\ Weights = "ok:weights" /\ Say("ok:weights")
        /\ Project /\ UNCHANGED tvars
Refuse == /\ ph = "proj" /\ Weights # "ok:weights" /\ Say(Weights)
          /\ ph' = "amp" /\ r' = r + 1 /\ UNCHANGED <<c, hist, w, rec>> /\ Keep
MinLen(a, b) == IF Len(a) < Len(b) THEN Len(a) ELSE Len(b)
SameRun(h) == /\ RCloseSeq(h.w, Run.w, RMul(T.rtol, RMaxSeq(h.w)))
              /\ RCloseSeq(h.diff, Run.diff, T.rtol)
Recreated ==
  IF Len(Run.rec) # NP \/ \E j \in 1..Len(Run.rec) : Len(Run.rec[j]) # NB
    THEN "bad:shape of the recreated waterfall"
  ELSE IF \E j \in 1..NP : ~RClose(RSum(Run.rec[j]), "1.0", T.stol)
    THEN "bad:recreated profile does not sum to one"
  ELSE IF \E j \in 1..NP : ~RCloseSeq(Run.rec[j], rec[j], T.rtol)
    THEN "bad:recreated is not the projection of the returned weights"
  ELSE "ok:recreated"
LastDiff == diffs[Len(diffs)]
Discr ==
  IF Len(Run.diff) # Run.niter + 1 THEN "bad:number of discrepancies"
  ELSE IF ~RClose(Run.diff[Run.niter + 1], LastDiff, T.rtol) THEN "bad:last discrepancy"
  ELSE IF \E h \in 1..Len(hist) : \E k \in 1..MinLen(hist[h].diff, Run.diff) :
            ~RClose(hist[h].diff[k], Run.diff[k], T.rtol)
    THEN "bad:discrepancies depend on the number of further iterations"
  ELSE "ok:discrepancies"
Repeat ==
  LET same == {h \in 1..Len(hist) : hist[h].niter = Run.niter /\ hist[h].kind = "plain"}
  IN IF Run.kind # "plain" \/ same = {} THEN "triv:first"
     ELSE IF \E h \in same : ~SameRun(hist[h]) THEN "bad:repeating the run changes the result"
     ELSE "ok:repeated"
\* The permuted run: particle i was given as number perm[i].
Permuted ==
  LET same == {h \in 1..Len(hist) : hist[h].niter = Run.niter /\ hist[h].kind = "plain"}
  IN IF Run.kind # "permuted" \/ same = {} THEN "triv:not permuted"
     ELSE IF \E h \in same : ~RCloseSeq(Run.w, hist[h].w, RMul(T.rtol, RMaxSeq(hist[h].w)))
       THEN "bad:weights depend on the order of the particles"
     ELSE "ok:permuted"
Compare == /\ ph = "corr"
           /\ Say(Recreated) /\ Say(Discr) /\ Say(Repeat) /\ Say(Permuted)
           /\ hist' = Append(hist, Run)
           /\ ph' = "amp" /\ r' = r + 1 /\ UNCHANGED <<c, w, rec>> /\ Keep
\* The particles reach no charge: nothing to reconstruct.
Reach == \E i \in 1..Len(xp) : \E j \in 1..NP : RLt("0.0", meas[j][xp[i][j] + 1])
Rejected == /\ ph = "amp" /\ r <= Len(T.runs) /\ Run.outcome # "ok"
            /\ Say(IF ~Reach THEN "ok:nothing to reconstruct"
                   ELSE IF Run.niter = 0 THEN "bad:rejected a reconstructible input"
                   ELSE "skip:vanished")
            /\ r' = r + 1 /\ UNCHANGED <<c, hist, w, rec, ph>> /\ Keep
NextCase == /\ ph = "amp" /\ r > Len(T.runs) /\ c' = c + 1 /\ ph' = "prep"
            /\ UNCHANGED <<r, hist, w, rec>> /\ Keep
End == /\ ph = "prep" /\ c = Len(Cases) + 1 /\ PrintT(<<"@DONE", c>>)
       /\ ph' = "end" /\ UNCHANGED <<c, r, hist, w, rec>> /\ Keep
TNext == Load \/ Adopt \/ Take \/ Refuse \/ Compare \/ Rejected \/ NextCase \/ End
TSpec == TInit /\ [][TNext]_<<rvars, tvars>>
=============================================================================
