SPECIFICATION Safe
CONSTANTS
  Vertices = {1, 2, 3}
  Weights = {1, 2}
  MaxLen = 3
  Order = "plain"
INVARIANT PopsLightest
CHECK_DEADLOCK FALSE
