INIT Init
NEXT Next
CONSTANTS
 Side = 3
 MaxN = 4
CHECK_DEADLOCK FALSE
