SPECIFICATION Spec
CONSTANTS MaxDepth = 3
          FnDepth = 1
          Counter = "reset"
INVARIANTS LabelsOk
CHECK_DEADLOCK FALSE
