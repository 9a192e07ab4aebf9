SPECIFICATION Spec
CONSTANTS Profs = {1, 2}  Bins = 4  Levels = {0, 1, 3}  Margins = {0, 1}  Thresholds = {"none", "1"}
INVARIANTS Inside KeepsBeam NothingToCut CutValid Filter
CHECK_DEADLOCK FALSE
