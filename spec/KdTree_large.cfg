SPECIFICATION Spec
CONSTANTS
 Coords = {0, 1, 2}
 QCoords = {0, 1, 2, 3}
 MaxN = 4
 MaxK = 4
 MaxR2 = 6
 Units = "metric"
 S = 4
 KthRule = "kth"
INVARIANTS RadiusCorrect KnnCorrect NoRevisit

CHECK_DEADLOCK FALSE
