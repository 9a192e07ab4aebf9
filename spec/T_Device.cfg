SPECIFICATION TSpec
CONSTANT Verdicts <- DevVerdicts
CHECK_DEADLOCK FALSE
