SPECIFICATION Safe
CONSTANTS
 MaxN = 4
 Coords = {0, 1, 2, 3}
 MaxK = 2
 Tols = {0, 1, 9}
 Limits = {0, 1, 3}
 PlusPlus = {TRUE, FALSE}
 Reuse = FALSE
 EmptyRule = "keep"
 StopRule = "all"
INVARIANTS Spread Partition StopsInTime
PROPERTIES Descent EmptyStays StopsSettled GoesOn 
CHECK_DEADLOCK FALSE
