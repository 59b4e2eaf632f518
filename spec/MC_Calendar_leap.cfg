SPECIFICATION Spec
CONSTANTS FirstYear = 1990
          Years = 20
          Rule400 = FALSE
INVARIANTS Successive
CHECK_DEADLOCK FALSE
