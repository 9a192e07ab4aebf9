SPECIFICATION TSpec
CONSTANT Verdicts <- MmVerdicts
CHECK_DEADLOCK FALSE
