SPECIFICATION TSpec
CONSTANT Verdicts <- ImVerdicts
CHECK_DEADLOCK FALSE
