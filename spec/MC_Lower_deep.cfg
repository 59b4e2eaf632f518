SPECIFICATION Spec
CONSTANTS Deep = TRUE
          QLen = 4
INVARIANTS Refines Labels Bounded
CHECK_DEADLOCK FALSE
