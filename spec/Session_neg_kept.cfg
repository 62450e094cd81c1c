SPECIFICATION Safe
CONSTANTS Threads = {1} Images = {1, 2, 3} Calls = 2 Table = "kept"
INVARIANT Alone
CHECK_DEADLOCK FALSE
