SPECIFICATION Spec
CONSTANT MaxLen = 4
INVARIANTS RejectedChangesNothing RunNeedsCoordinates OnlyRunsMakeResults AssignmentsIndependent
CHECK_DEADLOCK FALSE
