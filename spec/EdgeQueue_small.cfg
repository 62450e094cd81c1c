SPECIFICATION Safe
CONSTANTS
  Vertices = {1, 2, 3}
  Weights = {1, 2}
  MaxLen = 4
  Order = "reversed"
INVARIANTS SameBag PopsLightest Settled
CHECK_DEADLOCK FALSE
