SPECIFICATION Spec
CONSTANTS MaxOps = 2  Turns = 4  Ops0 = {"run", "multi", "track"}
INVARIANTS CompleteOrAborted AlwaysPrefix AbortStoresNothing
CHECK_DEADLOCK FALSE
