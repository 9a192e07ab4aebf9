SPECIFICATION Spec
CONSTANTS WA = 9 WB = 12 MaxOps = 4
INVARIANTS InStep ChargeFirst Together
PROPERTY RejectedKeeps
CHECK_DEADLOCK FALSE
