SPECIFICATION Spec
CONSTANTS Unit = 4 Radius2 = 3 Margin = 0 MinPts = 2 Sizes <- SizesS Colours = 2 MaxLevel = 1 Skip = "link of dense pixels is undecided"
INVARIANTS Decides
CHECK_DEADLOCK FALSE
