SPECIFICATION Spec
CONSTANTS N = 2 P = 2 Weights = {1, 2}
INVARIANTS Total Projection EnergyProjection RejectedUntouched
CHECK_DEADLOCK FALSE
