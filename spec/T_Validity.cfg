SPECIFICATION TSpec
CONSTANT Verdicts <- VaVerdicts
CHECK_DEADLOCK FALSE
