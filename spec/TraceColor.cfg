CONSTANT LinearLimit = 404500
SPECIFICATION Spec
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
