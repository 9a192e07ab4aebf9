SPECIFICATION OSpecT
CONSTANT Verdicts <- OwnVerdicts
CHECK_DEADLOCK FALSE
