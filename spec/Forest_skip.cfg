SPECIFICATION Spec
CONSTANTS
 N = 3
 Compress = "skip"
 Both = TRUE
INVARIANTS Sound SizesSound Labels Blocks
PROPERTY Answers
VIEW View
CHECK_DEADLOCK FALSE
