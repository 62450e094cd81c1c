SPECIFICATION Spec
CONSTANTS
 N = 6
 MinPts = {1, 2, 3, 4, 5, 6}
 Absorb = TRUE
 Border = TRUE
 Remark = TRUE
INVARIANTS Valid Total Grounded

CHECK_DEADLOCK FALSE
