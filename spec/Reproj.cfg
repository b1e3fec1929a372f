SPECIFICATION Spec
CONSTANTS N = 6 Turns = {0, 90, 180, 270, 360, 450, 30, 45, 350, 200}
INVARIANTS Quarter Back Radius Aims Solids Plane Emit
CHECK_DEADLOCK FALSE
