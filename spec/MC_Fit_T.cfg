SPECIFICATION Spec
CONSTANTS Width = 5  Levels = {0, 1, 2, 5, 9}  Pad = 4
INVARIANTS Moves Mirrored
CHECK_DEADLOCK FALSE
