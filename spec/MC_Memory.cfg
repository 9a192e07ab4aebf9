SPECIFICATION Spec
CONSTANTS MaxLen = 4  Iters = 2  Fault = "none"
INVARIANTS Intact NoLeak NoDangling Once AsSaid
CHECK_DEADLOCK FALSE
