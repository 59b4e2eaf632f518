SPECIFICATION Spec
CONSTANTS MaxLen = 2
MaxLim = 9
Cap = 16
INVARIANTS Exact Monotone LabelError NoOpen
PROPERTY Flow
