SPECIFICATION Spec
INVARIANT CountInv
CHECK_DEADLOCK FALSE
