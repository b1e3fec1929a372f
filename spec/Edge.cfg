SPECIFICATION Spec
CONSTANTS HalfDegs = {90, 60, 30} Steps = 12 Sizes = {5, 27, 90} Rings = {0, 3, 20, 60}
INVARIANTS Within Falls Sliced ChordIn Fits Emit
CHECK_DEADLOCK FALSE
