SPECIFICATION Spec
CONSTANTS MaxLen = 4
          Alphabet = {1, 2}
          Free = TRUE
          Drop = FALSE
INVARIANTS Partial Rebuilds NoEmpty Equal Tight Stuck
CHECK_DEADLOCK FALSE
