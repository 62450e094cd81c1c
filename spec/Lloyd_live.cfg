SPECIFICATION Spec
CONSTANTS
 MaxN = 3
 Coords = {0, 1, 2, 3}
 MaxK = 2
 Tols = {1, 9}
 Limits = {2, 50}
 PlusPlus = {TRUE, FALSE}
 Reuse = FALSE
 EmptyRule = "keep"
 StopRule = "all"
INVARIANTS Spread Partition StopsInTime
PROPERTIES Descent EmptyStays StopsSettled GoesOn Termination
CHECK_DEADLOCK FALSE
