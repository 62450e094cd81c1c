SPECIFICATION Spec
CONSTANTS
 Coords = {0, 1, 2}
 QCoords = {0, 1}
 MaxN = 3
 MaxK = 2
 MaxR2 = 4
 Units = "raw"
 S = 4
 KthRule = "kth"
INVARIANTS RadiusCorrect KnnCorrect NoRevisit

CHECK_DEADLOCK FALSE
