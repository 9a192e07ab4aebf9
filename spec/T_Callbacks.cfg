SPECIFICATION TSpec
CONSTANT Verdicts <- CbVerdicts
CHECK_DEADLOCK FALSE
