SPECIFICATION Spec
CONSTANTS Rows = 2
          Cols = 2
          Cells1 = {"null", "one", "day", "a", "digit", "empty", "quote", "line"}
          Fault = ""
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
