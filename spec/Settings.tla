------------------------------- MODULE Settings -------------------------------
(***************************************************************************)
(* The settings of a machine.  A machine holds, for every setting it has,  *)
(* the value given when it was built or assigned since, and the documented *)
(* default for the rest; what other machines were given is irrelevant.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Num
SDefaults ==
  [demax |-> "-1.0E6", phi12 |-> "0.0", h_ratio |-> "1.0", synch_part_x |-> "-1.0", charge |-> "1.0", h_num |-> "1.0",
   g_coupling |-> "none", zwall_over_n |-> "none", min_dt |-> "0.0", max_dt |-> "none",
   self_field_flag |-> "0.0", full_pp_flag |-> "0.0", pickup_sensitivity |-> "none",
   machine_ref_frame |-> "0.0", beam_ref_frame |-> "0.0", snpt |-> "4.0", niter |-> "20.0",
   filmstart |-> "0.0", filmstop |-> "1.0", filmstep |-> "1.0", output_dir |-> "none"]
SVoltages == [vrf1dot |-> "0.0", vrf2 |-> "0.0", vrf2dot |-> "0.0", bdot |-> "0.0"]
SAll == [n \in DOMAIN SDefaults \cup DOMAIN SVoltages |-> IF n \in DOMAIN SVoltages THEN SVoltages[n] ELSE SDefaults[n]]
SOptional(kind) == IF kind = "machine" THEN SAll ELSE SDefaults
Over(a, b) == [n \in DOMAIN a \cup DOMAIN b |-> IF n \in DOMAIN b THEN b[n] ELSE a[n]]
\* the settings of a new machine; given holds the required ones as well
SBuilt(kind, given) ==
  LET s == Over(SOptional(kind), given)
      w == [s EXCEPT !.max_dt = IF "max_dt" \in DOMAIN given THEN given.max_dt ELSE RMul(given.nbins, given.dtbin)]
  IN Over(w, [synch_part_y |-> RDiv(given.nbins, "2.0")])
SAssigned(s, n, v) == IF n = "nbins" THEN [s EXCEPT !.nbins = v, !.synch_part_y = RDiv(v, "2.0")] ELSE [s EXCEPT ![n] = v]
\* ops: [op "build", kind, given] and [op "set", machine, name, value]; the machines afterwards
SStep(ms, o) == IF o.op = "build" THEN Append(ms, SBuilt(o.kind, o.given))
                ELSE [ms EXCEPT ![o.machine] = SAssigned(@, o.name, o.value)]
RECURSIVE SAfter(_, _)
SAfter(ms, h) == IF h = <<>> THEN ms ELSE SAfter(SStep(ms, Head(h)), Tail(h))
=============================================================================
