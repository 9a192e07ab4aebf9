----------------------------- MODULE T_Tracking -----------------------------
(* Conformance of recorded tracking runs: the specification tracks the same *)
(* particles turn by turn, and the rows of every run mode are compared.     *)
EXTENDS Tracking, Json, IOUtils, TLC
Cases == JsonDeserialize(IOEnv.TRACE)
VARIABLE c
T == Cases[c]
TInit == /\ c = 1 /\ dir = "idle" /\ prog = <<>> /\ start = 0 /\ off = 0 /\ turn = 0 /\ phi = <<>>
         /\ en = <<>> /\ ini = <<>> /\ half = FALSE /\ rows = <<>> /\ log = <<>> /\ nact = 0
Say(v) == PrintT(<<"@V", T.id, v>>)
Load == c <= Len(Cases) /\ dir = "idle" /\ Begin(T.prog, T.start, IF "off" \in DOMAIN T THEN T.off ELSE 0, T.phi, T.en) /\ UNCHANGED c
Scale(v) == RMul(T.rtol, RAdd("1.0", RMaxSeq([i \in 1..Len(v) |-> RAbs(v[i])])))
CloseRow(a, b) == RCloseSeq(a, b, Scale(b))
Judge(ob) ==
  IF ob.outcome # "ok" THEN "bad:tracking rejected|" \o ob.mode
  ELSE IF Len(ob.phi) # prog.np \/ Len(ob.en) # prog.np THEN "bad:number of profiles|" \o ob.mode
  ELSE IF \E k \in 1..prog.np : Len(ob.phi[k]) # Len(ini.phi) \/ Len(ob.en[k]) # Len(ini.en)
    THEN "bad:number of particles|" \o ob.mode
  ELSE IF off = 0 /\ (ob.phi[start + 1] # ini.phi \/ ob.en[start + 1] # ini.en)
    THEN "bad:start profile is not the initial distribution|" \o ob.mode
  ELSE IF \E k \in 1..prog.np : ~CloseRow(ob.phi[k], rows[k].phi) THEN "bad:phase|" \o ob.mode
  ELSE IF \E k \in 1..prog.np : ~CloseRow(ob.en[k], rows[k].en) THEN "bad:energy|" \o ob.mode
  ELSE "ok:" \o ob.mode
Step == c <= Len(Cases) /\ KStep /\ UNCHANGED c
Finish == /\ c <= Len(Cases) /\ dir = "done"
          /\ \A o \in DOMAIN T.obs : Say(Judge(T.obs[o]))
          /\ c' = c + 1 /\ dir' = "idle"
          /\ UNCHANGED <<prog, start, off, turn, phi, en, ini, half, rows, log, nact>>
End == /\ c = Len(Cases) + 1 /\ dir = "idle" /\ PrintT(<<"@DONE", c>>) /\ dir' = "end"
       /\ UNCHANGED <<c, prog, start, off, turn, phi, en, ini, half, rows, log, nact>>
TNext == Load \/ Step \/ Finish \/ End
TSpec == TInit /\ [][TNext]_<<kvars, c>>
=============================================================================
