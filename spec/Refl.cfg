SPECIFICATION Spec
CONSTANTS Starts = {1, 2, 3, 4} Turns = 3
INVARIANTS Length Undone Either Angle Emit
CHECK_DEADLOCK FALSE
