SPECIFICATION Spec
CONSTANTS Unit = 4 Radius2 = 3 Margin = 1 MinPts = 2 Sizes <- SizesS Colours = 2 MaxLevel = 1 Skip = ""
INVARIANTS Decides
CHECK_DEADLOCK FALSE
