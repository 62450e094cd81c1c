SPECIFICATION Safe
CONSTANTS
 N = 4
 Weights = {1, 2}
 Cleanup = FALSE
INVARIANTS Correct Growing CriterionSound

CHECK_DEADLOCK FALSE
