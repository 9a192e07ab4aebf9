SPECIFICATION PSpec
CONSTANT Verdicts <- PipeVerdicts
CHECK_DEADLOCK FALSE
