----------------------------- MODULE InputFile ------------------------------
(***************************************************************************)
(* The version 3 parameter file: 98 lines, numbered from 0, of which those *)
(* below carry parameters and all others are free text.  conv: "text",     *)
(* "real", "int", "count" (counted from one in the file, from zero in the  *)
(* program), "flag".                                                       *)
(***************************************************************************)
EXTENDS Num, FiniteSets
NLines == 98
F(attr, line, conv) == [attr |-> attr, line |-> ToString(line), conv |-> conv]
MachineFields == <<
  F("output_dir", 14, "text"), F("dtbin", 22, "real"), F("dturns", 24, "int"),
  F("synch_part_x", 39, "real"), F("demax", 41, "real"),
  F("filmstart", 43, "count"), F("filmstop", 45, "count"), F("filmstep", 47, "int"),
  F("niter", 49, "int"), F("snpt", 51, "int"), F("full_pp_flag", 53, "flag"),
  F("beam_ref_frame", 55, "count"), F("machine_ref_frame", 57, "count"),
  F("vrf1", 61, "real"), F("vrf1dot", 63, "real"), F("vrf2", 65, "real"), F("vrf2dot", 67, "real"),
  F("h_num", 69, "real"), F("h_ratio", 71, "real"), F("phi12", 73, "real"),
  F("b0", 75, "real"), F("bdot", 77, "real"), F("mean_orbit_rad", 79, "real"),
  F("bending_rad", 81, "real"), F("trans_gamma", 83, "real"), F("e_rest", 85, "real"),
  F("q", 87, "real"), F("self_field_flag", 91, "flag"), F("g_coupling", 93, "real"),
  F("zwall_over_n", 95, "real"), F("pickup_sensitivity", 97, "real") >>
FrameFields == <<
  F("raw_data_path", 12, "text"), F("nframes", 16, "int"), F("skip_frames", 18, "int"),
  F("nbins_frame", 20, "int"), F("sampling_time", 22, "real"), F("skip_bins_start", 26, "int"),
  F("skip_bins_end", 28, "int"), F("rebin", 36, "int") >>
\* the value the attribute must have, given the parameter of its line
Lands(conv, val, got) ==
  CASE conv = "text" -> got = val
    [] conv = "real" -> RNear(got, val, "1e-14", "0")
    [] conv = "int" -> REq(got, val)
    [] conv = "count" -> REq(got, RSub(val, 1))
    [] conv = "flag" -> got = IF REq(val, 0) THEN "false" ELSE "true"
Derived(vals) ==
  LET nb == RSub(RSub(vals["20"], vals["26"]), vals["28"])
  IN [nprofiles |-> RSub(vals["16"], vals["18"]), nbins |-> nb,
      min_dt |-> RMul(vals["31"], vals["22"]),
      max_dt |-> RMul(RSub(nb, vals["34"]), vals["22"])]
NoLineTwice == \A t \in {MachineFields, FrameFields} : Cardinality({t[k].line : k \in 1..Len(t)}) = Len(t)
=============================================================================
