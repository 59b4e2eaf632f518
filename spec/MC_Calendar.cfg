SPECIFICATION Spec
CONSTANTS FirstYear = 1890
          Years = 120
          Rule400 = TRUE
INVARIANTS Successive
CHECK_DEADLOCK FALSE
