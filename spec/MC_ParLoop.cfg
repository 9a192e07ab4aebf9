SPECIFICATION Spec
CONSTANTS NThreads = 2  Steps = 3  Cells = {1, 2}  AnyProgs = FALSE
INVARIANT SequentialResult
CHECK_DEADLOCK FALSE
