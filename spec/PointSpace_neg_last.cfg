SPECIFICATION Spec
CONSTANTS
 Dim = 2
 Lim = 1
 Scalars = {1}
 Wrong = TRUE
INVARIANTS Metric EuclidTriangle Inverse 
PROPERTY Componentwise
VIEW View
CHECK_DEADLOCK FALSE
