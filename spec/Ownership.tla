----------------------------- MODULE Ownership ------------------------------
(* Who may change what.  The caller owns objects; a call reads some of them *)
(* and may change only those its documentation says it changes (its frame). *)
(* A result is a function of what was read, so a call repeated on unchanged *)
(* objects gives the same result.                                           *)
EXTENDS Naturals, FiniteSets, Sequences
\* operation -> [reads, may]
O(r, m) == [reads |-> r, may |-> m]
Pure(r) == O(r, {})
Table == [
  \* measured data
  to_waterfall     |-> Pure({"raw"}),
  rebin            |-> Pure({"wf"}),
  rebin_list       |-> Pure({"wflist"}),
  rebin_old        |-> Pure({"wf"}),
  baseline         |-> Pure({"wf"}),
  get_cuts         |-> Pure({"wf"}),
  cut_waterfall    |-> Pure({"wf"}),
  filter_profiles  |-> Pure({"wf", "xp", "yp"}),
  to_profiles      |-> O({"wf", "machine", "turns", "bins"}, {"bins"}),
  new_profiles     |-> O({"wf", "machine", "turns", "bins"}, {"bins"}),
  set_waterfall    |-> O({"wf", "profiles", "machine", "turns", "bins"}, {"bins", "profiles"}),
  charge           |-> O({"profiles", "machine", "turns", "bins"}, {"charge"}),
  self_fields      |-> O({"profiles", "charge", "machine", "turns", "bins"}, {"selfs"}),
  fit_profiles     |-> Pure({"profiles", "machine", "turns", "bins"}),
  load_fit         |-> O({"profiles", "machine", "turns", "bins"}, {"bins"}),
  fit_waterfall    |-> Pure({"wf", "machine", "turns", "bins"}),
  txt_input        |-> Pure({"lines"}),
  \* machine and tracking
  values           |-> O({"machine", "bins"}, {"turns"}),
  physics          |-> Pure({"machine", "turns", "bins"}),
  programs         |-> Pure({"momentum", "voltage", "phase"}),
  area             |-> O({"machine", "turns", "bins"}, {"width"}),
  homogeneous      |-> O({"machine", "turns", "bins"}, {"width"}),
  track            |-> O({"machine", "turns", "bins"}, {"width"}),
  track_given      |-> Pure({"machine", "turns", "bins", "dphi", "denergy"}),
  track_given_tuple |-> Pure({"machine", "turns", "bins", "dphi", "denergy"}),
  track_self       |-> Pure({"machine", "turns", "bins", "dphi", "denergy", "profiles", "selfs"}),
  track_again      |-> Pure({"machine", "turns", "bins", "start"}),
  set_coordinates  |-> Pure({"dphi", "denergy"}),
  to_coords        |-> Pure({"machine", "turns", "bins", "tx", "ty"}),
  filter_lost      |-> Pure({"fx", "fy"}),
  ready            |-> Pure({"fx", "fy"}),
  shortcut_track   |-> O({"machine", "turns", "bins"}, {"width"}),
  \* reconstruction
  new_tomo         |-> Pure({"wf", "xp", "yp"}),
  set_xp           |-> O({"tomo", "xp", "yp"}, {"tomo"}),
  run              |-> O({"tomo"}, {"outcome"}),
  run_hybrid       |-> O({"tomo"}, {"outcome"}),
  run_fresh        |-> Pure({"wf", "xp"}),
  run_multi        |-> Pure({"wf", "xp"}),
  run_multi_hybrid |-> Pure({"wf", "xp"}),
  shortcut_tomogram |-> Pure({"wf", "xp", "yp"}),
  lib_reconstruct  |-> Pure({"wf", "xp"}),
  lib_project      |-> Pure({"flat", "weights"}),
  lib_back_project |-> O({"flat", "weights", "flatprof"}, {"weights"}),
  \* images and output
  phase_space      |-> Pure({"tomo", "outcome", "width", "machine", "turns", "bins"}),
  from_coordinates |-> Pure({"xp", "yp", "weights"}),
  image_of         |-> Pure({"xp", "yp", "weights"}),
  make_phase_space |-> Pure({"xp", "yp", "weights"}),
  to_macro         |-> Pure({"trange", "erange", "image"}),
  show             |-> Pure({"image", "diff", "wf"}),
  post_process     |-> Pure({"trange", "erange", "image"}),
  emittances       |-> Pure({"trange", "erange", "image"}),
  dpp              |-> Pure({"erange", "image"}),
  save_files       |-> Pure({"wf", "image", "diff", "xp", "yp", "weights"}),
  \* kernels working in place by contract
  lib_kick         |-> O({"machine", "turns", "bins", "dphi", "denergy"}, {"denergy"}),
  lib_drift        |-> O({"machine", "turns", "bins", "dphi", "denergy"}, {"dphi"}),
  lib_kick_drift   |-> O({"machine", "turns", "bins", "dphi", "denergy", "tx", "ty"}, {"dphi", "denergy", "tx", "ty"}) ]
Ops == DOMAIN Table
Objects == UNION {Table[o].reads \cup Table[o].may : o \in Ops}
\* A machine is four objects: its parameters ("machine"), its binning and
\* synchronous bin ("bins"), its turn programme ("turns") and the energy width
\* of a bin ("width").  Profiles: the waterfall ("profiles"), its charge and its
\* self-fields ("selfs").  A reconstruction: what goes in ("tomo") and what
\* comes out ("outcome").  "start" is the initial distribution a tracker holds.
VARIABLES version, calls
ovars == <<version, calls>>
OInit == version = [x \in Objects |-> 0] /\ calls = <<>>
Call(o) == \E ch \in SUBSET Table[o].may :
   /\ version' = [x \in Objects |-> IF x \in ch THEN version[x] + 1 ELSE version[x]]
   /\ calls' = Append(calls, [op |-> o, saw |-> [x \in Table[o].reads |-> version[x]]])
\* The result is determined by the operation and what it saw.
Result(k) == calls[k]
Repeatable == \A j, k \in 1..Len(calls) :
   (calls[j].op = calls[k].op /\ calls[j].saw = calls[k].saw) => Result(j) = Result(k)
Owned == \A x \in Objects : version[x] > 0 => \E k \in 1..Len(calls) : x \in Table[calls[k].op].may
=============================================================================
