SPECIFICATION Spec
CONSTANTS
 Dim = 3
 Lim = 1
 Scalars = {0, 1, 2}
 Wrong = FALSE
INVARIANTS Metric EuclidTriangle Inverse 
PROPERTY Componentwise
VIEW View
CHECK_DEADLOCK FALSE
