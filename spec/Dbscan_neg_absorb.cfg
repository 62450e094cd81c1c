SPECIFICATION Spec
CONSTANTS
 N = 4
 MinPts = {3}
 Absorb = FALSE
 Border = TRUE
 Remark = TRUE
INVARIANTS Valid Total Grounded

CHECK_DEADLOCK FALSE
