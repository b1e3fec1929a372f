SPECIFICATION Spec
CONSTANTS Shapes <- MCShapes Turns = 2
INVARIANTS Dims Valid Others Same Back Ordered Emit
CHECK_DEADLOCK FALSE
