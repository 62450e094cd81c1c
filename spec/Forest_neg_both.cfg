SPECIFICATION Spec
CONSTANTS
 N = 3
 Compress = "root"
 Both = FALSE
INVARIANTS Sound SizesSound Labels
PROPERTY Answers
VIEW View
CHECK_DEADLOCK FALSE
