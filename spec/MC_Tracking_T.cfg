SPECIFICATION MSpec
CONSTANTS MaxProf = 6 MaxDt = 6
INVARIANTS ExactlyOnceInOrder AllRecorded StartRowKept EveryTurnCounted RecordedAtTurn RestartGivesSameRows
CHECK_DEADLOCK FALSE
