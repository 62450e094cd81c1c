SPECIFICATION Spec
CONSTANTS
 N = 3
 Weights = {1, 2}
 Cleanup = TRUE
INVARIANTS Correct Growing CriterionSound
PROPERTY Termination
CHECK_DEADLOCK FALSE
