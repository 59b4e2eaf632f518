SPECIFICATION Spec
CONSTANTS
  Vars = {x, y, z}
  Max = 3
  Depth = 5
  NormIndex = TRUE
  NormText = TRUE
INVARIANT Simulation
CHECK_DEADLOCK FALSE
