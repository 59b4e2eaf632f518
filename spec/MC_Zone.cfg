SPECIFICATION Spec
CONSTANTS Hours = FALSE
INVARIANTS RoundTrip Sound
CHECK_DEADLOCK FALSE
