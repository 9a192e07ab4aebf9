SPECIFICATION TSpec
CONSTANT Verdicts <- ProgVerdicts
CHECK_DEADLOCK FALSE
