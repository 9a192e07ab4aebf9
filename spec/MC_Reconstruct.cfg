SPECIFICATION Spec
CONSTANTS NPart = 2 NProf = 2 NBin = 2 NIter = 2 Samples = {0, 1, 3}
INVARIANTS NonNeg RecNormalised SupportOnly AmplifiedAtLeastOne SameTrajectorySameWeight Bounded
CHECK_DEADLOCK FALSE
