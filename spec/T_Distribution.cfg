SPECIFICATION TSpec
CONSTANT Verdicts <- DistVerdicts
CHECK_DEADLOCK FALSE
