SPECIFICATION TSpec
CONSTANT Verdicts <- InVerdicts
CHECK_DEADLOCK FALSE
