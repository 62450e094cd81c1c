SPECIFICATION Spec
CONSTANTS Threads = {1, 2} Images = {1, 3} Calls = 2 Table = "own"
PROPERTY Answered
CHECK_DEADLOCK FALSE
