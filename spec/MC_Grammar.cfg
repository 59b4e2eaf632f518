SPECIFICATION Spec
INVARIANTS OneTree SameAsSpine Wrapped Cut
CONSTANTS
  MaxOps = 4
  OpSet = {"**", "*", "%", "+", "-", "<=", "<", "==", "&&", "||"}
CHECK_DEADLOCK FALSE
