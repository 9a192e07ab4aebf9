SPECIFICATION Spec
CONSTANTS N = 2  M = 4  Levels = {0, 1, 3}  Fractions = {"1.0", "30.0", "61.0", "90.0", "99.0"}
INVARIANTS Scaling Mirror Moving Area Monotone Fewer
CHECK_DEADLOCK FALSE
