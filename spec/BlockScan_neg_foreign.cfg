SPECIFICATION Spec
CONSTANTS Unit = 5 Radius2 = 1 Margin = 0 MinPts = 2 Sizes <- SizesL Colours = 2 Skip = "foreign"
INVARIANTS Decides
CHECK_DEADLOCK FALSE
