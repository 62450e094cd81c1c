SPECIFICATION Safe
CONSTANTS Threads = {1, 2} Images = {1, 2, 3, 4} Calls = 2 Table = "own"
INVARIANTS Function Alone
CHECK_DEADLOCK FALSE
