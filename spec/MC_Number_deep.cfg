SPECIFICATION Spec
CONSTANTS Step = 1
          Digits = 0
INVARIANTS Texts
CHECK_DEADLOCK FALSE
