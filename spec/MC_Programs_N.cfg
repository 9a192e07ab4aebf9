SPECIFICATION Spec
CONSTANTS P = 4 MaxProf = 3 MaxDt = 2 MaxGap = 5 MaxTref = 12 Margin = 0
INVARIANTS WindowComplete RefusedOnlyIfShort
PROPERTY Ends
CHECK_DEADLOCK FALSE
