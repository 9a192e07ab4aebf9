SPECIFICATION TSpec
CONSTANT Verdicts <- SnVerdicts
CHECK_DEADLOCK FALSE
