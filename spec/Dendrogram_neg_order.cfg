SPECIFICATION Safe
CONSTANTS
 N = 3
 Weights = {1, 2}
 Order = "any"
 Split = "last"
INVARIANTS Ascending AllJoined CutCorrect
PROPERTIES NearestPair 
CHECK_DEADLOCK FALSE
