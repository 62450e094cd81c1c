SPECIFICATION Spec
CONSTANTS
  Lo = 0
  Top = 2
  Units = 5
  Steps = 1
  Kind = "wrap"
INVARIANT Ordered
CHECK_DEADLOCK FALSE
