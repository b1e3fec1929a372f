SPECIFICATION Spec
CONSTANTS Files = {"a", "b"}
 LineIds = {"1", "2"}
 MaxSteps = 3 MaxLines = 2
INVARIANTS Kept Emit
PROPERTIES Derived
CHECK_DEADLOCK FALSE
