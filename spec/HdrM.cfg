SPECIFICATION Spec
CONSTANTS MaxX = 6 MaxY = 6
 Vals <- ValsDef
INVARIANTS SameShape InPlace Close Stable Emit
CHECK_DEADLOCK FALSE
