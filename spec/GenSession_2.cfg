INIT Init
NEXT Next
CONSTANT Depth = 2
CHECK_DEADLOCK FALSE
