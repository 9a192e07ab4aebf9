SPECIFICATION TSpec
CONSTANT Verdicts <- AnVerdicts
CHECK_DEADLOCK FALSE
