SPECIFICATION Spec
CONSTANTS MainLen = 2
FileLen = 1
Cap = 12
INVARIANTS Direct Where
CHECK_DEADLOCK FALSE
