SPECIFICATION Spec
INVARIANT SameReading
CONSTANTS
  Steps = 3
  Quoted = FALSE
CHECK_DEADLOCK FALSE
