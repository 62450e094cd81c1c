SPECIFICATION Spec
CONSTANTS Unit = 5 Radius2 = 1 Margin = 0 MinPts = 2 Sizes <- SizesS Colours = 2 Skip = "dense"
INVARIANTS Decides
CHECK_DEADLOCK FALSE
