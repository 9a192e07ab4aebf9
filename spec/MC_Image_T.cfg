SPECIFICATION Spec
CONSTANTS N = 2 P = 3 Weights = {1, 3}
INVARIANTS Total Projection EnergyProjection RejectedUntouched
CHECK_DEADLOCK FALSE
