SPECIFICATION Spec
INVARIANT SameReading
CONSTANTS
  Steps = 1
  Quoted = TRUE
CHECK_DEADLOCK FALSE
