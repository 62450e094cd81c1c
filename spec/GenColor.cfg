INIT Init
NEXT Next
CONSTANTS
 LinearLimit = 404500
 Steps = 8000
CHECK_DEADLOCK FALSE
