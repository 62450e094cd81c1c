SPECIFICATION Spec
CONSTANTS LinearLimit = 404500 Levels = {0, 255} LabStep = 25 Limit = FALSE
INVARIANTS Ranges RoundTrip Sharp Monotone Neutral Primaries
CHECK_DEADLOCK FALSE
