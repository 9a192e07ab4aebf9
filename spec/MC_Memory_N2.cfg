SPECIFICATION Spec
CONSTANTS MaxLen = 4  Iters = 2  Fault = "freed at the end"
INVARIANTS Intact NoLeak NoDangling Once AsSaid
CHECK_DEADLOCK FALSE
