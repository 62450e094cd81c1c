INIT Init
NEXT Next
CONSTANTS
 N = 3
 Depth = 5
CHECK_DEADLOCK FALSE
