SPECIFICATION Spec
CONSTANTS Cells = {1, 2, 4, 5} Lums = {1, 2, 3}
INVARIANTS Order Parts Bounds Scales Glare Emit
CHECK_DEADLOCK FALSE
