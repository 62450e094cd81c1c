SPECIFICATION Spec
CONSTANTS
 N = 3
 Compress = "drop"
 Both = TRUE
INVARIANTS Sound SizesSound Labels
PROPERTY Answers
VIEW View
CHECK_DEADLOCK FALSE
