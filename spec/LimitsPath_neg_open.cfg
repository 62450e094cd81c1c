SPECIFICATION Spec
CONSTANTS
  Lo = 0
  Top = 2
  Units = 5
  Steps = 1
  Kind = "open"
INVARIANT Kept
CHECK_DEADLOCK FALSE
