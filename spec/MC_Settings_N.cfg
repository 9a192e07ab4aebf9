SPECIFICATION Spec
CONSTANTS MaxLen = 3  Leaky = TRUE
INVARIANT OwnSettingsOnly
CHECK_DEADLOCK FALSE
