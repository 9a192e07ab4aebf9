SPECIFICATION TSpec
CONSTANT Verdicts <- FrVerdicts
CHECK_DEADLOCK FALSE
