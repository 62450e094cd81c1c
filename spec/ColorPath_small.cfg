SPECIFICATION Spec
CONSTANTS LinearLimit = 404500 Levels = {0, 1, 9, 10, 11, 64, 128, 200, 254, 255} LabStep = 25 Limit = TRUE
INVARIANTS Ranges RoundTrip Sharp Monotone Neutral Primaries
CHECK_DEADLOCK FALSE
