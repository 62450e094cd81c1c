INIT Init
NEXT Next
CONSTANTS Depth = 2 Requests = 6
CHECK_DEADLOCK FALSE
