SPECIFICATION Spec
CONSTANTS NThreads = 3  Steps = 2  Cells = {1, 2, 3}  AnyProgs = FALSE
INVARIANT SequentialResult
CHECK_DEADLOCK FALSE
