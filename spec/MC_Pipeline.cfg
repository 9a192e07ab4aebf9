SPECIFICATION MSpec
CONSTANT NONE = NONE
INVARIANTS SameResult RunIsAllowed FitReachesImage SelfReachesTracking
PROPERTY Terminates
CHECK_DEADLOCK FALSE
