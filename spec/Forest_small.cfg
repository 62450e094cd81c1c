SPECIFICATION Spec
CONSTANTS
 N = 4
 Compress = "root"
 Both = TRUE
INVARIANTS Sound SizesSound Labels Blocks
PROPERTY Answers
VIEW View
CHECK_DEADLOCK FALSE
