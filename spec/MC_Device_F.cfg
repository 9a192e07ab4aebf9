SPECIFICATION Spec
CONSTANTS MaxLen = 4  Wrong = "first"
INVARIANTS KernelsFollow LastSelectionWins
CHECK_DEADLOCK FALSE
