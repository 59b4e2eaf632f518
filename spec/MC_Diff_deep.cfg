SPECIFICATION Spec
CONSTANTS MaxLen = 6
          Alphabet = {1, 2, 3}
          Free = FALSE
          Drop = FALSE
INVARIANTS Partial Rebuilds NoEmpty Equal Tight Stuck
CHECK_DEADLOCK FALSE
