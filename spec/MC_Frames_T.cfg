SPECIFICATION Spec
CONSTANTS MaxN = 3  MaxLen = 4  MaxBins = 30
INVARIANTS EverySampleOnce GroupsCover
CHECK_DEADLOCK FALSE
