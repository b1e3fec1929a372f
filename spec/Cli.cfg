SPECIFICATION Spec
CONSTANTS Depth = 1 Small = FALSE
INVARIANTS Inputs Apart Emit
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
