SPECIFICATION TSpec
CONSTANT Verdicts <- LostVerdicts
CHECK_DEADLOCK FALSE
