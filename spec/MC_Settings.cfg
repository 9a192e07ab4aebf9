SPECIFICATION Spec
CONSTANTS MaxLen = 4  Leaky = FALSE
INVARIANT OwnSettingsOnly
CHECK_DEADLOCK FALSE
