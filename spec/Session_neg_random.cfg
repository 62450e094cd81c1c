SPECIFICATION Safe
CONSTANTS Threads = {1} Images = {1, 2} Calls = 2 Table = "random"
INVARIANT Function
CHECK_DEADLOCK FALSE
