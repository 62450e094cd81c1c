SPECIFICATION Spec
CONSTANTS Unit = 4 Radius2 = 1 Margin = 0 MinPts = 2 Sizes <- Sizes4 Colours = 2 MaxLevel = 1 Skip = "roots"
INVARIANTS Decides
CHECK_DEADLOCK FALSE
