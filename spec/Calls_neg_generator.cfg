SPECIFICATION Safe
CONSTANTS
  Threads = {1, 2}
  Requests = {1, 2}
  Budget = 3
  Shared = "generator"
INVARIANT Function
CHECK_DEADLOCK FALSE
