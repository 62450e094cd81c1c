SPECIFICATION Spec
CONSTANTS
 N = 5
 MinPts = {4}
 Absorb = TRUE
 Border = FALSE
 Remark = TRUE
INVARIANTS Valid Total Grounded

CHECK_DEADLOCK FALSE
