SPECIFICATION Spec
CONSTANTS MaxRows = 3
          Keys = {"none", "null", "one", "onetext", "yes", "arr"}
          Meas = {9, 0, 3}
          Fault = ""
INVARIANTS TopLaw SortLaw GroupLaw JoinLaw Lonely
CHECK_DEADLOCK FALSE
