SPECIFICATION Spec
CONSTANTS Sigmas = {0, 1, 5, 15, 30, 50, 70, 89, 90, 91, 120, 179, 180} Taus = {0, 10, 45, 80, 90, 91, 100, 135, 180, 270, 300} Views = {1, 2, 3, 4, 5}
INVARIANTS Relative Angles Bounds Mirror Joins Emit
PROPERTIES Falls
CHECK_DEADLOCK FALSE
