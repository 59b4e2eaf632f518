SPECIFICATION Spec
CONSTANTS MaxLen = 5
          Alphabet = {1, 2, 3}
          Free = FALSE
          Drop = FALSE
INVARIANTS Partial Rebuilds NoEmpty Equal Tight Stuck
CHECK_DEADLOCK FALSE
