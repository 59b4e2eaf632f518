SPECIFICATION Spec
CONSTANTS Rows = 2
          Cols = 2
          Cells1 = {"null", "one", "half", "yes", "no", "day", "time", "a", "digit", "empty", "quote", "line", "sp", "baddate", "day1", "q", "nulls"}
          Fault = ""
INVARIANTS RoundTrip
CHECK_DEADLOCK FALSE
