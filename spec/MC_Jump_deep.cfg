SPECIFICATION Spec
CONSTANTS MaxLen = 3
MaxLim = 9
Cap = 16
INVARIANTS Exact Monotone LabelError NoOpen
PROPERTY Flow
