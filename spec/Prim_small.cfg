SPECIFICATION Safe
CONSTANTS
 N = 4
 Weights = {1, 2, 3}
 Cleanup = TRUE
INVARIANTS Correct Growing CriterionSound

CHECK_DEADLOCK FALSE
