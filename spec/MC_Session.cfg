SPECIFICATION Spec
CONSTANTS MaxLen = 5  Copies = FALSE  Keeps = FALSE  Deep = FALSE
INVARIANTS Honest Idempotent Separate
CHECK_DEADLOCK FALSE
