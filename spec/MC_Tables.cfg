SPECIFICATION Spec
CONSTANTS MaxRows = 3
          Keys = {"none", "one", "onetext", "arr"}
          Meas = {9, 0, 3}
          Fault = ""
INVARIANTS TopLaw SortLaw GroupLaw JoinLaw Lonely
CHECK_DEADLOCK FALSE
