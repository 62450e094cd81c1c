SPECIFICATION Spec
CONSTANTS
 N = 5
 Compress = "root"
 Both = TRUE
INVARIANTS Sound SizesSound Labels Blocks
PROPERTY Answers
VIEW View
CHECK_DEADLOCK FALSE
