SPECIFICATION TSpec
CONSTANT Verdicts <- MachineVerdicts
CHECK_DEADLOCK FALSE
