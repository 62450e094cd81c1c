SPECIFICATION Spec
CONSTANTS
  Threads = {1, 2}
  Requests = {1, 2}
  Budget = 3
  Shared = "nothing"
PROPERTY Answered
CHECK_DEADLOCK FALSE
