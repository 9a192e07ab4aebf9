SPECIFICATION Spec
CONSTANT MaxLen = 5
INVARIANT LastSelectionWins
CHECK_DEADLOCK FALSE
