SPECIFICATION Spec
CONSTANTS N = 4 Vals = {0, 2, 5} Wts = {0, 1, 3} Qs = {0, 7, 20, 37, 40}
INVARIANTS Ranged Ends Scale Order AnyOrder Accepts Grid Emit
PROPERTIES Monotone
CHECK_DEADLOCK FALSE
