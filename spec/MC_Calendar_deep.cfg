SPECIFICATION Spec
CONSTANTS FirstYear = 1
          Years = 2400
          Rule400 = TRUE
INVARIANTS Successive
CHECK_DEADLOCK FALSE
