SPECIFICATION Spec
CONSTANTS MaxLen = 5  Copies = FALSE  Keeps = FALSE  Deep = TRUE
INVARIANTS Honest Idempotent Separate
CHECK_DEADLOCK FALSE
