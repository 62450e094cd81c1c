SPECIFICATION Safe
CONSTANTS Shares = {0, 1} Others = {0, 1} MaxLen = 3 ByOther = TRUE
INVARIANT ByShare
CHECK_DEADLOCK FALSE
