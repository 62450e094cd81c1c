SPECIFICATION Safe
CONSTANTS Threads = {1, 2} Images = {1, 3} Calls = 2 Table = "shared"
INVARIANT Function
CHECK_DEADLOCK FALSE
