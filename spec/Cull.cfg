SPECIFICATION Spec
CONSTANTS N = 5 Top = 5 Tols = {1, 2}
INVARIANTS Disjoint Partly Always Done Emit
CHECK_DEADLOCK FALSE
