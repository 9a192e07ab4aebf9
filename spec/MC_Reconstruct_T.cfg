SPECIFICATION Spec
CONSTANTS NPart = 3 NProf = 2 NBin = 3 NIter = 2 Samples = {0, 2}
INVARIANTS NonNeg RecNormalised SupportOnly AmplifiedAtLeastOne SameTrajectorySameWeight Bounded
CHECK_DEADLOCK FALSE
