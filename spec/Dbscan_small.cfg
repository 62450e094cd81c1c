SPECIFICATION Spec
CONSTANTS
 N = 5
 MinPts = {1, 2, 3, 4, 5}
 Absorb = TRUE
 Border = TRUE
 Remark = TRUE
INVARIANTS Valid Total Grounded

CHECK_DEADLOCK FALSE
