SPECIFICATION Safe
CONSTANTS Shares = {0, 1, 2, 3} Others = {0, 1} MaxLen = 5 ByOther = FALSE
INVARIANTS SameBag ByShare Stable WeakOrder
CHECK_DEADLOCK FALSE
