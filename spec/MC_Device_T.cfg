SPECIFICATION Spec
CONSTANTS MaxLen = 5  Wrong = "no"
INVARIANTS KernelsFollow LastSelectionWins
CHECK_DEADLOCK FALSE
