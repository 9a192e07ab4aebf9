SPECIFICATION Spec
CONSTANTS Depth = 2  Film = {"none", "-1", "0", "1", "2", "3", "-3"}
INVARIANTS Sound FilmSane Consistent
PROPERTIES Unchanged Flags
CHECK_DEADLOCK FALSE
