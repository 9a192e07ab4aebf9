SPECIFICATION TSpec
CONSTANT Verdicts <- SeVerdicts
CHECK_DEADLOCK FALSE
