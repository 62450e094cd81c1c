SPECIFICATION Spec
CONSTANTS
 Dim = 2
 Lim = 1
 Scalars = {1}
 Wrong = FALSE
INVARIANTS Metric EuclidTriangle Inverse SquaredTriangle
PROPERTY Componentwise
VIEW View
CHECK_DEADLOCK FALSE
