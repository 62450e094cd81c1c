SPECIFICATION Spec
CONSTANTS Unit = 4 Radius2 = 3 Margin = 1 MinPts = 3 Sizes <- SizesS Colours = 2 Skip = ""
INVARIANTS Decides Sums
CHECK_DEADLOCK FALSE
