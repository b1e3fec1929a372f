SPECIFICATION Spec
CONSTANTS Depth = 2 Small = TRUE
INVARIANTS Inputs Apart Emit
PROPERTIES Keeps
CHECK_DEADLOCK FALSE
