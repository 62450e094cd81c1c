INIT Init
NEXT Next
CONSTANTS
 N = 4
 Weights = {1, 2, 3}
CHECK_DEADLOCK FALSE
