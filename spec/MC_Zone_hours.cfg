SPECIFICATION Spec
CONSTANTS Hours = TRUE
INVARIANTS RoundTrip Sound
CHECK_DEADLOCK FALSE
