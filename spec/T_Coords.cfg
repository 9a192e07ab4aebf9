SPECIFICATION TSpec
CONSTANT Verdicts <- CoordsVerdicts
CHECK_DEADLOCK FALSE
