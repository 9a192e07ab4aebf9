SPECIFICATION MSpec
CONSTANTS MaxProf = 4 MaxDt = 4
INVARIANTS ExactlyOnceInOrder AllRecorded StartRowKept EveryTurnCounted RecordedAtTurn RestartGivesSameRows
CHECK_DEADLOCK FALSE
