SPECIFICATION Spec
CONSTANTS
 AddedDown = FALSE
 NTurns = 14
INVARIANTS Back Outside Linear
CHECK_DEADLOCK FALSE
