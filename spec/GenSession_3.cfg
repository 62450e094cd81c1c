INIT Init
NEXT Next
CONSTANT Depth = 3
CHECK_DEADLOCK FALSE
