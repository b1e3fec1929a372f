SPECIFICATION Spec
CONSTANTS Kinds = {"view", "rvu", "other", "text"} MaxLines = 2 Shapes = {"square", "wide", "tall"}
INVARIANTS NoneIff Emit
PROPERTIES Step
CHECK_DEADLOCK FALSE
