SPECIFICATION Safe
CONSTANTS
  Threads = {1, 2}
  Requests = {1, 2, 3, 4}
  Budget = 4
  Shared = "bysize"
INVARIANT Alone
CHECK_DEADLOCK FALSE
