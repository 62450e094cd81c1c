INIT Init
NEXT Next
CONSTANTS
 N = 3
 Depth = 4
CHECK_DEADLOCK FALSE
