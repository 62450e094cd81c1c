SPECIFICATION Spec
CONSTANTS Unit = 4 Radius2 = 1 Margin = 0 MinPts = 2 Sizes <- SizesL Colours = 2 MaxLevel = 1 Skip = ""
INVARIANTS Decides
CHECK_DEADLOCK FALSE
