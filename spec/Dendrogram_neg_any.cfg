SPECIFICATION Safe
CONSTANTS
 N = 4
 Weights = {1, 2}
 Order = "any"
 Split = "last"
INVARIANTS AlwaysRight
 
CHECK_DEADLOCK FALSE
