------------------------------ MODULE T_Input -------------------------------
EXTENDS TraceLoop, InputFile
ASSUME NoLineTwice
Is(T, want) == IF want = "ok" THEN T.outcome = "ok" ELSE T.outcome = "error" /\ want \in ToSet(T.mro)
Wrong(T, fields, got) == {k \in 1..Len(fields) :
    ~Has(got, fields[k].attr) \/ ~Lands(fields[k].conv, T.vals[fields[k].line], got[fields[k].attr])}
ParseV(T) ==
  IF T.outcome # "ok" THEN "bad:a legal input is read from " \o T.transport
  ELSE LET wm == Wrong(T, MachineFields, T.machine)
           wf == Wrong(T, FrameFields, T.frames)
           d == Derived(T.vals)
       IN IF wm # {} THEN "bad:machine parameter " \o MachineFields[CHOOSE k \in wm : TRUE].attr
          ELSE IF wf # {} THEN "bad:frame parameter " \o FrameFields[CHOOSE k \in wf : TRUE].attr
          ELSE FirstBad(<<
            <<REq(T.machine.nprofiles, d.nprofiles), "number of profiles">>,
            <<REq(T.machine.nbins, d.nbins), "number of bins">>,
            <<RNear(T.machine.synch_part_y, RDiv(d.nbins, 2), "1e-12", "0"), "synchronous energy row">>,
            <<RNear(T.machine.min_dt, d.min_dt, "1e-12", "1e-25"), "lower limit in time">>,
            <<RNear(T.machine.max_dt, d.max_dt, "1e-12", "1e-25"), "upper limit in time">>,
            <<T.transport = "list" \/ (Len(T.raw) = Len(T.data) /\ \A k \in 1..Len(T.raw) : RNear(T.raw[k], T.data[k], "1e-14", "0")), "measured data">>,
            <<T.unchanged, "given list unchanged">> >>, "read from " \o T.transport)
ErrV(T) == FirstBad(<< <<Is(T, T.want), "outcome of " \o T.what \o ", expected " \o T.want>> >>, "rejected input")
InVerdicts(T) == {IF T.kind = "parse" THEN ParseV(T) ELSE ErrV(T)}
=============================================================================
