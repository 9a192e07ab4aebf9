SPECIFICATION TSpec
CONSTANT Verdicts <- AreaVerdicts
CHECK_DEADLOCK FALSE
