SPECIFICATION Safe
CONSTANTS Unit = 5 Radius2 = 1 Margin = 0 MinPts = 2 Sizes <- SizesS Colours = 2 Ordered = TRUE RowMajor = TRUE KeepNoise = TRUE
INVARIANT OnePerCluster
CHECK_DEADLOCK FALSE
