SPECIFICATION Safe
CONSTANTS
 N = 4
 Weights = {1, 2, 3}
 Order = "weight"
 Split = "last"
INVARIANTS Ascending AllJoined CutCorrect
PROPERTIES NearestPair 
CHECK_DEADLOCK FALSE
