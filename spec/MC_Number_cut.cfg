SPECIFICATION Spec
CONSTANTS Step = 17
          Digits = 16
INVARIANTS Texts
CHECK_DEADLOCK FALSE
