SPECIFICATION Spec
CONSTANTS MaxLen = 4  Iters = 2  Fault = "refusal keeps all"
INVARIANTS Intact NoLeak NoDangling Once AsSaid
CHECK_DEADLOCK FALSE
