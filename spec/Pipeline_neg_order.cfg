SPECIFICATION Safe
CONSTANTS Unit = 5 Radius2 = 1 Margin = 0 MinPts = 2 Sizes <- SizesS Colours = 3 Ordered = FALSE RowMajor = TRUE KeepNoise = FALSE
INVARIANT OwnShare
CHECK_DEADLOCK FALSE
