SPECIFICATION Spec
CONSTANTS
 Coords = {0, 1, 2}
 QCoords = {0, 1, 3}
 MaxN = 3
 MaxK = 3
 MaxR2 = 5
 Units = "metric"
 S = 4
 KthRule = "kth"
INVARIANTS RadiusCorrect KnnCorrect NoRevisit

CHECK_DEADLOCK FALSE
