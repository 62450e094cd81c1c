CONSTANTS Shares = {0} Others = {0} MaxLen = 0 ByOther = FALSE
SPECIFICATION ESpec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
