INIT Init
NEXT Next
CONSTANTS Depth = 3 Requests = 6
CHECK_DEADLOCK FALSE
