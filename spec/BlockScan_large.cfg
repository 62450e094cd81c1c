SPECIFICATION Spec
CONSTANTS Unit = 5 Radius2 = 1 Margin = 0 MinPts = 2 Sizes <- SizesL Colours = 3 Skip = ""
INVARIANTS Decides Sums
CHECK_DEADLOCK FALSE
