SPECIFICATION TSpec
CONSTANT Verdicts <- ParVerdicts
CHECK_DEADLOCK FALSE
