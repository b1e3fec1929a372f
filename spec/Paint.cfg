SPECIFICATION Spec
CONSTANTS W = 4 H = 3 Grows = {0, 1, 2} Steps = 2
INVARIANTS Shape Support Conserved Unpainted Emit
CHECK_DEADLOCK FALSE
