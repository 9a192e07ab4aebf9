SPECIFICATION Spec
CONSTANTS NThreads = 3  Steps = 3
CHECK_DEADLOCK FALSE
