SPECIFICATION Safe
CONSTANTS Unit = 5 Radius2 = 1 Margin = 0 MinPts = 2 Sizes <- SizesN Colours = 2 Ordered = TRUE RowMajor = FALSE KeepNoise = FALSE
INVARIANT OwnPlace
CHECK_DEADLOCK FALSE
