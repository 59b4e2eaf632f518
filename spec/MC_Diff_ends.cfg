SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Alphabet = {1, 2, 3}
          Free = FALSE
          Drop = FALSE
INVARIANTS Partial Rebuilds NoEmpty Equal Tight Stuck
PROPERTIES Ends
CHECK_DEADLOCK FALSE
