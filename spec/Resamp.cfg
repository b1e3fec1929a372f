SPECIFICATION Spec
CONSTANTS Turns = 2
INVARIANTS Constant Fits Kept Undo Within Emit
CHECK_DEADLOCK FALSE
