SPECIFICATION Spec
CONSTANTS P = 4 MaxProf = 4 MaxDt = 3 MaxGap = 9 MaxTref = 24 Margin = 1
INVARIANTS WindowComplete RefusedOnlyIfShort
PROPERTY Ends
CHECK_DEADLOCK FALSE
