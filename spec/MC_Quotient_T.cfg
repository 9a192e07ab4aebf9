SPECIFICATION Spec
CONSTANTS NPart = 2 NProf = 2 NBin = 3 NIter = 2 Samples = {0, 2} MaxMult = 3
INVARIANTS Same
CHECK_DEADLOCK FALSE
