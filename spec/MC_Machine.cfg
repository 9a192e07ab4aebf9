SPECIFICATION MSpec
CONSTANTS MaxProf = 4 MaxDt = 3
INVARIANTS ReferenceIndependent TimeIncreases
PROPERTY Finishes
CHECK_DEADLOCK FALSE
