SPECIFICATION Spec
INVARIANTS OneTree SameAsSpine Wrapped Cut
CONSTANTS
  MaxOps = 5
  OpSet = {"**", "*", "%", "+", "-", "<=", "<", "==", "&&", "||"}
CHECK_DEADLOCK FALSE
