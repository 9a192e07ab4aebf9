------------------------------ MODULE Validity ------------------------------
(***************************************************************************)
(* Which settings are accepted, with which error the others are refused,   *)
(* and what a refused request leaves behind (nothing changes).             *)
(* Values are reals (or "none").                                           *)
(***************************************************************************)
EXTENDS Num, FiniteSets
None == "none"
Positive(v) == v # None /\ RLt("0", v)
NonNegative(v) == v # None /\ RLe("0", v)
NoneOrNonNegative(v) == v = None \/ RLe("0", v)
PositiveFields == {"dtbin", "dturns", "niter", "snpt", "h_num", "b0", "mean_orbit_rad", "bending_rad", "e_rest"}
NonNegativeFields == {"machine_ref_frame", "beam_ref_frame", "h_ratio"}
SpaceChargeFields == {"pickup_sensitivity", "g_coupling"}
FilmOk(m) == /\ m.filmstart # None /\ m.filmstop # None /\ m.filmstep # None
             /\ RLe("0", m.filmstart) /\ RLe(m.filmstart, m.filmstop)
             /\ ~REq(m.filmstep, "0")
             /\ RLe(RAbs(m.filmstep), RAbs(RAdd(RSub(m.filmstop, m.filmstart), "1")))
MachineBad(m) == {k \in PositiveFields : ~Positive(m[k])} \cup {k \in NonNegativeFields : ~NonNegative(m[k])}
                 \cup {k \in SpaceChargeFields : ~NoneOrNonNegative(m[k])} \cup (IF FilmOk(m) THEN {} ELSE {"film"})
MachineErrors(m) == {IF k \in SpaceChargeFields THEN "SpaceChargeParameterError" ELSE "MachineParameterError" : k \in MachineBad(m)}
MachineValid(m) == MachineBad(m) = {}
\* A frame layout, see Frames.
\* Start profile r of n profiles; the last profile leaves nothing to track up to.
StartIndex(r, n) == IF r < 0 THEN r + n ELSE r
StartError(r, n) == IF r < -n \/ r >= n THEN "IndexError"
                    ELSE IF StartIndex(r, n) = n - 1 THEN "ValueError" ELSE "ok"
\* assert_index_ok
IndexError(i, n, wrap) == IF i >= n \/ (wrap /\ i < -n) THEN "IndexError"
                          ELSE IF i < 0 /\ ~wrap THEN "NegativeIndexError" ELSE "ok"
\* Scalar and array conditions.
ScalarHolds(op, x, a, b) ==
  CASE op = "greater" -> RLt(a, x) [] op = "less" -> RLt(x, a) [] op = "equal" -> REq(x, a)
    [] op = "not_equal" -> ~REq(x, a) [] op = "less_or_equal" -> RLe(x, a)
    [] op = "greater_or_equal" -> RLe(a, x) [] op = "inrange" -> RLe(a, x) /\ RLe(x, b)
ArrayHolds(op, v, a, b) ==
  CASE op = "array_greater" -> \A i \in 1..Len(v) : RLt(a, v[i])
    [] op = "array_greater_eq" -> \A i \in 1..Len(v) : RLe(a, v[i])
    [] op = "array_less" -> \A i \in 1..Len(v) : RLt(v[i], a)
    [] op = "array_less_eq" -> \A i \in 1..Len(v) : RLe(v[i], a)
    [] op = "array_in_range" -> \A i \in 1..Len(v) : RLe(a, v[i]) /\ RLe(v[i], b)
    [] op = "array_not_equal" -> \E i \in 1..Len(v) : ~REq(v[i], a)
    [] op = "only_valid_particles" -> \A i \in 1..Len(v) : RLe("0", v[i]) /\ RLt(v[i], a)
\* The positions (from 0, plus the offset) of the elements that do not hold: the error names them.
Offenders(op, v, a, b, off) ==
  SelectSeq([i \in 1..Len(v) |-> i - 1 + off], LAMBDA k : ~ArrayHolds(op, <<v[k - off + 1]>>, a, b))
\* One-off requests: the error the request r is answered with.
RuleError(r) ==
  CASE r.rule = "waterfall" -> IF ~r.iter \/ r.rows # r.n THEN "WaterfallError" ELSE IF ~r.positive THEN "WaterfallReducedToZero" ELSE "ok"
    [] r.rule = "selffield" -> IF ~r.charge THEN "ProfileChargeNotCalculated" ELSE IF ~r.iter \/ ~r.shape THEN "FilteredProfilesError" ELSE "ok"
    [] r.rule = "demax" -> IF REq(r.x, "0") THEN "EnergyBinningError" ELSE "ok"
    [] r.rule = "cut" -> IF r.l < 0 \/ r.r < -r.n \/ r.r > r.n \/ (IF r.r < 0 THEN r.n + r.r ELSE r.r) <= r.l THEN "ValueError" ELSE "ok"
    [] r.rule = "fraction" -> IF RLt(r.x, "0") \/ RLt("100", r.x) THEN "ValueError" ELSE "ok"
    [] r.rule = "percent" -> IF RLt(r.x, "0") \/ RLt("1", r.x) THEN "InputError" ELSE "ok"
    [] r.rule = "harmonics" -> IF r.n \in {1, 2} THEN "ok" ELSE "ArrayLengthError"
    [] r.rule = "phases" -> IF r.both THEN "ValueError" ELSE "ok"
    [] r.rule = "xp" -> IF ~r.iter \/ r.ndim # 2 THEN "CoordinateImportError" ELSE IF r.cols # r.n THEN "CoordinateImportError"
                        ELSE IF r.lo < 0 \/ r.hi >= r.nbins THEN "XPOutOfImageWidthError" ELSE "ok"
    [] r.rule = "plotinfo" -> IF ~r.debin THEN "EnergyBinningError" ELSE IF ~r.limits THEN "PhaseLimitsError" ELSE "ok"
    [] r.rule = "rawdata" -> IF ~r.iter \/ r.rows # r.n THEN "RawDataImportError" ELSE "ok"
(***************************************************************************)
(* The tracker: Fortran-style output and self fields are switched on by    *)
(* accepted requests only, the start distribution is the last accepted one *)
(***************************************************************************)
NewTracker == [ftn |-> FALSE, charge |-> None, self |-> FALSE, dist |-> 0]
TrackerOps == {"ftn-none", "ftn-zero", "ftn-charge", "self-no-phiwrap", "self-no-vself", "self-nothing", "self-ok",
               "coords-1", "coords-2", "coords-scalar", "coords-none", "coords-one", "coords-three",
               "coords-unequal", "coords-noniter", "track-1", "track-2", "track-three", "track-last", "track-high", "track-low"}
OpError(op) ==
  CASE op = "ftn-none" -> "ProfileChargeNotCalculated"
    [] op \in {"self-no-phiwrap", "self-no-vself", "self-nothing"} -> "SelfFieldTrackingError"
    [] op \in {"coords-scalar", "coords-none", "coords-one", "coords-three", "coords-unequal", "coords-noniter", "track-three"} -> "InvalidParticleError"
    [] op = "track-last" -> "ValueError"
    [] op \in {"track-high", "track-low"} -> "IndexError"
    [] OTHER -> "ok"
OpEffect(s, op) ==
  IF OpError(op) # "ok" THEN s
  ELSE CASE op = "ftn-zero" -> [s EXCEPT !.ftn = TRUE, !.charge = "0.0"]
         [] op = "ftn-charge" -> [s EXCEPT !.ftn = TRUE, !.charge = "2.5"]
         [] op = "self-ok" -> [s EXCEPT !.self = TRUE]
         [] op \in {"coords-1", "track-1"} -> [s EXCEPT !.dist = 1]
         [] op \in {"coords-2", "track-2"} -> [s EXCEPT !.dist = 2]
RECURSIVE RunOps(_, _)
RunOps(s, ops) == IF ops = <<>> THEN s ELSE RunOps(OpEffect(s, Head(ops)), Tail(ops))
=============================================================================
