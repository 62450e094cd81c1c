SPECIFICATION Spec
CONSTANTS LinearLimit = 404500 Levels = {0, 1, 2, 5, 9, 10, 11, 12, 20, 40, 64, 90, 128, 160, 180, 200, 220, 240, 254, 255} LabStep = 10 Limit = TRUE
INVARIANTS Ranges RoundTrip Sharp Monotone Neutral Primaries
CHECK_DEADLOCK FALSE
