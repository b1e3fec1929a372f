SPECIFICATION Spec
CONSTANTS N = 24 Shifts = {0, 391}
INVARIANTS OnUnit Hemisphere Mirror Back BackSky BackMirrored BackDir DiskSame Area Cross1 Emit
PROPERTIES Continuous
CHECK_DEADLOCK FALSE
