SPECIFICATION Spec
CONSTANTS
 AddedDown = FALSE
 NTurns = 4
INVARIANTS Back Outside Linear
CHECK_DEADLOCK FALSE
