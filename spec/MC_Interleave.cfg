SPECIFICATION Spec
CONSTANTS NThreads = 3  Steps = 2
CHECK_DEADLOCK FALSE
