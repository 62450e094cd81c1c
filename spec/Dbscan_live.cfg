SPECIFICATION Spec
CONSTANTS
 N = 4
 MinPts = {2, 3}
 Absorb = TRUE
 Border = TRUE
 Remark = TRUE
INVARIANTS Valid Total Grounded
PROPERTY Termination
CHECK_DEADLOCK FALSE
