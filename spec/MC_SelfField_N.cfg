SPECIFICATION Spec
CONSTANTS
 AddedDown = TRUE
 NTurns = 4
INVARIANTS Back Outside Linear
CHECK_DEADLOCK FALSE
