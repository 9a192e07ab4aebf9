SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANT LastSelectionWins
CHECK_DEADLOCK FALSE
