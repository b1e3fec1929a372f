SPECIFICATION Spec
CONSTANTS MaxOps = 3 MaxByte = 20
INVARIANTS Content NeverPart Shaped Emit
PROPERTIES Frame
CHECK_DEADLOCK FALSE
