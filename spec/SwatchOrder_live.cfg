SPECIFICATION Spec
CONSTANTS Shares = {0, 1, 2} Others = {0, 1} MaxLen = 3 ByOther = FALSE
PROPERTY Sorts
CHECK_DEADLOCK FALSE
