SPECIFICATION Spec
CONSTANTS R = 2 Step = 15
INVARIANTS TpBack TpRange AaBack AaTp RotSound ChordSound YpSound FishSound Emit
CHECK_DEADLOCK FALSE
