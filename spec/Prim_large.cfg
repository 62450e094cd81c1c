SPECIFICATION Safe
CONSTANTS
 N = 5
 Weights = {1, 2}
 Cleanup = TRUE
INVARIANTS Correct Growing CriterionSound

CHECK_DEADLOCK FALSE
