SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Alphabet = {1, 2, 3}
          Free = FALSE
          Drop = TRUE
INVARIANTS Partial Rebuilds NoEmpty Equal Tight Stuck
CHECK_DEADLOCK FALSE
