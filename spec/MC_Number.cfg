SPECIFICATION Spec
CONSTANTS Step = 17
          Digits = 0
INVARIANTS Texts
CHECK_DEADLOCK FALSE
