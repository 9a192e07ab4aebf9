SPECIFICATION TSpec
CONSTANT Verdicts <- OuVerdicts
CHECK_DEADLOCK FALSE
