SPECIFICATION Spec
INVARIANTS Accepted Viable Hopeless
CONSTANTS
  MaxLines = 6
CHECK_DEADLOCK FALSE
