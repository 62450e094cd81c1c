SPECIFICATION Safe
CONSTANTS
 N = 4
 Weights = {1, 2}
 Order = "any"
 Split = "last"
INVARIANTS DeferredSound AllJoined
 
CHECK_DEADLOCK FALSE
