SPECIFICATION Spec
CONSTANTS MaxLen = 4  Wrong = "no"
INVARIANTS KernelsFollow LastSelectionWins
CHECK_DEADLOCK FALSE
