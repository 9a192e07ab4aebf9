SPECIFICATION TSpec
CONSTANT Verdicts <- CuVerdicts
CHECK_DEADLOCK FALSE
