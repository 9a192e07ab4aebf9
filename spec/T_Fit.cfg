SPECIFICATION TSpec
CONSTANT Verdicts <- FiVerdicts
CHECK_DEADLOCK FALSE
