SPECIFICATION Spec
CONSTANT NB = 5
INVARIANTS InsideImage Mirrored NonEmpty OnlyNarrows KeepsAccepting
CHECK_DEADLOCK FALSE
