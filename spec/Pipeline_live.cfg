SPECIFICATION Spec
CONSTANTS Unit = 5 Radius2 = 3 Margin = 0 MinPts = 2 Sizes <- SizesS Colours = 2 Ordered = TRUE RowMajor = TRUE KeepNoise = FALSE
PROPERTY Returns
CHECK_DEADLOCK FALSE
