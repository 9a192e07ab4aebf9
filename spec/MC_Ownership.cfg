SPECIFICATION MSpec
INVARIANTS Repeatable Owned Undisturbed
CHECK_DEADLOCK FALSE
