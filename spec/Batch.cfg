SPECIFICATION Spec
CONSTANTS MaxLen = 4 Workers = 3
INVARIANTS Own Complete Emit
CHECK_DEADLOCK FALSE
