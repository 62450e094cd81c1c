SPECIFICATION Spec
CONSTANTS
  Lo = 0
  Top = 5
  Units = 12
  Steps = 2
  Kind = "clamp"
INVARIANTS Inside Kept Ordered
PROPERTY Once
CHECK_DEADLOCK FALSE
