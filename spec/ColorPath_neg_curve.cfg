SPECIFICATION Spec
CONSTANTS LinearLimit = 4000000 Levels = {0, 10, 64, 128} LabStep = 0 Limit = TRUE
INVARIANTS Ranges RoundTrip Sharp Monotone Neutral Primaries
CHECK_DEADLOCK FALSE
