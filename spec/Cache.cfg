SPECIFICATION Spec
CONSTANTS Slots = {1, 2} Data = {1, 2} MaxLen = 4 Reuse = FALSE
INVARIANTS Own Kept Emit
CHECK_DEADLOCK FALSE
