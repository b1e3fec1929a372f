SPECIFICATION Spec
CONSTANTS MaxInit = 3 Calls = 2
INVARIANTS OnceEach AtFront Nothing NoMore InOrder Again Emit
CHECK_DEADLOCK FALSE
