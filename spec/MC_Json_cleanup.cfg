SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Alphabet = {97, 46, 48, 44}
          Cleanup = TRUE
INVARIANTS RoundTrip OneLine
CHECK_DEADLOCK FALSE
