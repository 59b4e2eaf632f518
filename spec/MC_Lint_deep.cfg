SPECIFICATION Spec
CONSTANTS MaxBody = 3
          MaxMain = 1
          Cap = 16
INVARIANTS Justified Predicted
