SPECIFICATION Spec
CONSTANTS MaxLen = 4  Wrong = "stale"
INVARIANTS KernelsFollow LastSelectionWins
CHECK_DEADLOCK FALSE
