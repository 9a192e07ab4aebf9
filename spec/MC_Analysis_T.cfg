SPECIFICATION Spec
CONSTANTS Levels = {0, 1, 2, 3, 5, 8, 13}  Fractions = {"0.01", "0.3", "0.61", "0.9", "0.99"}  Spans = {"0.01", "0.5", "1.3", "2.7", "3.4", "0.05", "0.2", "0.9", "2.0", "3.0"}
INVARIANTS Transposed Mirrored Definite Growing Bounded Closed AreaGrows Elliptic Kept Flat0
CHECK_DEADLOCK FALSE
