SPECIFICATION Spec
CONSTANTS N = 2  M = 3  Levels = {0, 1, 2, 5}  Fractions = {"1.0", "30.0", "61.0", "90.0", "99.0"}
INVARIANTS Scaling Mirror Moving Area Monotone Fewer
CHECK_DEADLOCK FALSE
