SPECIFICATION Spec
CONSTANTS R = 1 Angles = {10, 60, 90, 137, 180, 360} G = 6
INVARIANTS FrameSound SameAsYp Opening PosBack Equiangular Whole UvBack UvMid Emit
CHECK_DEADLOCK FALSE
