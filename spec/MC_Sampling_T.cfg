SPECIFICATION Spec
CONSTANTS NX = 2 NY = 3 Levels = {0, 1, 3} Thresholds = {"0.0", "0.15", "0.3", "0.5", "0.9"} N = 2
INVARIANTS InWeight Distribution Monotone Fair
CHECK_DEADLOCK FALSE
