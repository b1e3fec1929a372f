SPECIFICATION Spec
CONSTANTS MaxLen = 5 MaxDepth = 2 Part = 1
INVARIANTS Emit KeepsAll AddsNothing Once ViewLast Inside InPlace Stable
CHECK_DEADLOCK FALSE
