SPECIFICATION TSpec
CONSTANT Verdicts <- PrVerdicts
CONSTANTS WA = 9 WB = 12
CHECK_DEADLOCK FALSE
