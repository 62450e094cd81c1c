SPECIFICATION Spec
CONSTANTS
 Coords = {0, 1, 2}
 QCoords = {0, 2}
 MaxN = 3
 MaxK = 2
 MaxR2 = 2
 Units = "metric"
 S = 4
 KthRule = "kth"
INVARIANTS RadiusCorrect KnnCorrect NoRevisit
PROPERTY Termination
CHECK_DEADLOCK FALSE
