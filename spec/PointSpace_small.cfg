SPECIFICATION Spec
CONSTANTS
 Dim = 2
 Lim = 2
 Scalars = {0, 1, 2, 3}
 Wrong = FALSE
INVARIANTS Metric EuclidTriangle Inverse 
PROPERTY Componentwise
VIEW View
CHECK_DEADLOCK FALSE
