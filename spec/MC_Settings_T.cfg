SPECIFICATION Spec
CONSTANTS MaxLen = 5  Leaky = FALSE
INVARIANT OwnSettingsOnly
CHECK_DEADLOCK FALSE
