SPECIFICATION Spec
CONSTANTS MaxBody = 3
          MaxMain = 0
          Cap = 14
INVARIANTS Justified Predicted
