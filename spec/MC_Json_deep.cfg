SPECIFICATION Spec
CONSTANTS MaxLen = 3
          Alphabet = {97, 46, 48, 44, 93, 125, 34, 92, 47, 10, 117, 31, 127, 233, 55357, 128512}
          Cleanup = FALSE
INVARIANTS RoundTrip OneLine
CHECK_DEADLOCK FALSE
