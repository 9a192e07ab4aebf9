SPECIFICATION TSpec
CONSTANT Verdicts <- TomoVerdicts
CHECK_DEADLOCK FALSE
