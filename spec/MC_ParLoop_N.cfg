SPECIFICATION Spec
CONSTANTS NThreads = 2  Steps = 2  Cells = {1, 2}  AnyProgs = TRUE
INVARIANT SequentialResult
CHECK_DEADLOCK FALSE
