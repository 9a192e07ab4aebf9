SPECIFICATION TSpec
CONSTANT Verdicts <- SaVerdicts
CHECK_DEADLOCK FALSE
