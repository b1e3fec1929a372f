SPECIFICATION Spec
CONSTANTS MaxSide = 7
INVARIANTS There Unfold Sky SkyBack Touch Far Emit
CHECK_DEADLOCK FALSE
