SPECIFICATION Spec
CONSTANTS
 N = 3
 Weights = {1, 2}
 Order = "weight"
 Split = "last"
INVARIANTS Ascending AllJoined CutCorrect
PROPERTIES NearestPair Termination
CHECK_DEADLOCK FALSE
