SPECIFICATION Spec
CONSTANTS NB = 3 MaxPart = 3 MaxProf = 2
INVARIANTS KeptInside LostOutside Ordered Emit
CHECK_DEADLOCK FALSE
