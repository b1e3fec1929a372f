SPECIFICATION Spec
CONSTANTS Sizes = {9, 12, 13} Angles = {2, 7, 23, 90, 180} Images = {"noise", "point", "sources"}
INVARIANTS Complete Skips Paths Emit
CHECK_DEADLOCK FALSE
