SPECIFICATION Spec
CONSTANTS
  Lo = 0
  Top = 2
  Units = 5
  Steps = 1
  Kind = "clamp"
INVARIANTS Inside Kept Ordered
PROPERTY Once
CHECK_DEADLOCK FALSE
