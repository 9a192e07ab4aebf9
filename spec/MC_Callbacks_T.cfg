SPECIFICATION Spec
CONSTANTS MaxOps = 3  Turns = 4  Ops0 = {"run", "multi", "track"}
INVARIANTS CompleteOrAborted AlwaysPrefix AbortStoresNothing
CHECK_DEADLOCK FALSE
