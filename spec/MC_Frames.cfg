SPECIFICATION Spec
CONSTANTS MaxN = 2  MaxLen = 3  MaxBins = 12
INVARIANTS EverySampleOnce GroupsCover
CHECK_DEADLOCK FALSE
