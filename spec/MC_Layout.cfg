SPECIFICATION Spec
INVARIANT SameReading
CONSTANTS
  Steps = 2
  Quoted = FALSE
CHECK_DEADLOCK FALSE
