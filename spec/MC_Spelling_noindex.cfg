SPECIFICATION Spec
CONSTANTS
  Vars = {x, y, z}
  Max = 2
  Depth = 3
  NormIndex = FALSE
  NormText = TRUE
INVARIANT Simulation
CHECK_DEADLOCK FALSE
