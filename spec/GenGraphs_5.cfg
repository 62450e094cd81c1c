INIT Init
NEXT Next
CONSTANTS
 N = 5
 Weights = {1, 2}
CHECK_DEADLOCK FALSE
