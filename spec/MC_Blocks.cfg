SPECIFICATION Spec
INVARIANTS Accepted Viable Hopeless
CONSTANTS
  MaxLines = 5
CHECK_DEADLOCK FALSE
