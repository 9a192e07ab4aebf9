SPECIFICATION Spec
CONSTANT NB = 6
INVARIANTS InsideImage Mirrored NonEmpty OnlyNarrows KeepsAccepting
CHECK_DEADLOCK FALSE
