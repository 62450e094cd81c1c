CONSTANTS LinearLimit = 404500 Unit = 400000 Radius2 = 100000000 Margin = 100000 MinPts = 25
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
