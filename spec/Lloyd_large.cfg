SPECIFICATION Safe
CONSTANTS
 MaxN = 4
 Coords = {0, 1, 2, 3}
 MaxK = 3
 Tols = {1, 9, 20}
 Limits = {1, 5}
 PlusPlus = {TRUE, FALSE}
 Reuse = FALSE
 EmptyRule = "keep"
 StopRule = "all"
INVARIANTS Spread Partition StopsInTime
PROPERTIES Descent EmptyStays StopsSettled GoesOn
CHECK_DEADLOCK FALSE
