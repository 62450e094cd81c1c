SPECIFICATION Spec
CONSTANTS
 Coords = {0, 1, 2}
 QCoords = {2}
 MaxN = 4
 MaxK = 2
 MaxR2 = 0
 Units = "metric"
 S = 4
 KthRule = "nearest"
INVARIANTS RadiusCorrect KnnCorrect NoRevisit

CHECK_DEADLOCK FALSE
