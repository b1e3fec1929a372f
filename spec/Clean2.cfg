SPECIFICATION Spec
CONSTANTS MaxLen = 6 MaxDepth = 2 Part = 2
INVARIANTS Emit KeepsAll AddsNothing Once ViewLast Inside InPlace Stable
CHECK_DEADLOCK FALSE
