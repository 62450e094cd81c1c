SPECIFICATION Safe
CONSTANTS Shares = {0, 1, 2} Others = {0, 1} MaxLen = 4 ByOther = FALSE
INVARIANTS SameBag ByShare Stable WeakOrder
CHECK_DEADLOCK FALSE
