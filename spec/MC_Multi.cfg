SPECIFICATION Spec
CONSTANTS NPart = 2 NProf = 2 NBin = 3 NIter = 2
CONSTANTS Rows <- ConstRows
CONSTANTS Layouts <- ConstLayouts
INVARIANTS NonNeg RecNormalised SupportOnly AmplifiedAtLeastOne SameTrajectorySameWeight MaskedCarryNothing WholeWindow LikeSingle
CHECK_DEADLOCK FALSE
