SPECIFICATION Safe
CONSTANTS
  Vertices = {1, 2, 3}
  Weights = {1, 2, 3}
  MaxLen = 5
  Order = "reversed"
INVARIANTS SameBag PopsLightest Settled
CHECK_DEADLOCK FALSE
