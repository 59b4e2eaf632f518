SPECIFICATION Spec
CONSTANTS MaxDepth = 3
          FnDepth = 1
          Counter = "shared"
INVARIANTS LabelsOk
CHECK_DEADLOCK FALSE
