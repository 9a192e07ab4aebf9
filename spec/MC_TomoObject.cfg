SPECIFICATION Spec
CONSTANT MaxLen = 3
INVARIANTS RejectedChangesNothing RunNeedsCoordinates OnlyRunsMakeResults AssignmentsIndependent
CHECK_DEADLOCK FALSE
