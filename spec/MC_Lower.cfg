SPECIFICATION Spec
CONSTANTS Deep = FALSE
          QLen = 3
INVARIANTS Refines Labels Bounded
CHECK_DEADLOCK FALSE
