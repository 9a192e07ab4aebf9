SPECIFICATION TSpec
CONSTANT Verdicts <- ConfigVerdicts
CHECK_DEADLOCK FALSE
