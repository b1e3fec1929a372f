SPECIFICATION Spec
CONSTANTS Depth = 4
INVARIANTS OnlyUser OnlySet OneAnswer Emit
CHECK_DEADLOCK FALSE
