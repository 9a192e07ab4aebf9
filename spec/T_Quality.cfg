SPECIFICATION TSpec
CONSTANT Verdicts <- QuVerdicts
CHECK_DEADLOCK FALSE
