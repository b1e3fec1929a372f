SPECIFICATION Spec
CONSTANTS Angles = {5, 60, 120, 180, 360} G = 16
INVARIANTS Covers Hemi Swept Positive Member Emit
CHECK_DEADLOCK FALSE
