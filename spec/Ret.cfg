SPECIFICATION Spec
CONSTANTS Radii = {0, 1, 3, 5, 10, 19, 37, 52, 90, 148, 223, 300, 452, 600, 660, 755, 820, 900, 1100} Dirs = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16} Fns = {"field", "cells", "own"}
INVARIANTS Positive Bounded Mirror Fovea Shipped Emit
PROPERTIES Falls
CHECK_DEADLOCK FALSE
