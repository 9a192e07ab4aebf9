SPECIFICATION MSpec
CONSTANTS MaxProf = 6 MaxDt = 6
INVARIANTS ReferenceIndependent TimeIncreases
PROPERTY Finishes
CHECK_DEADLOCK FALSE
