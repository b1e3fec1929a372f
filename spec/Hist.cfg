SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS Fresh Answer Empty Emit
CHECK_DEADLOCK FALSE
