INIT Init
NEXT Next
CONSTANTS
 Side = 3
 MaxN = 3
CHECK_DEADLOCK FALSE
