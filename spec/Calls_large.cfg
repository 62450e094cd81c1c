SPECIFICATION Safe
CONSTANTS
  Threads = {1, 2, 3}
  Requests = {1, 2, 3, 4}
  Budget = 5
  Shared = "nothing"
INVARIANTS Function Alone
CHECK_DEADLOCK FALSE
