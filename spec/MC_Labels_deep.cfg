SPECIFICATION Spec
CONSTANTS MaxDepth = 4
          FnDepth = 2
          Counter = "shared"
INVARIANTS LabelsOk
CHECK_DEADLOCK FALSE
