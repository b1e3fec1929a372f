SPECIFICATION Spec
CONSTANTS N = 4 Top = 3 Sigmas = {1, 80, 300} Bws <- MCBws
INVARIANTS Within Flat Order Emit
PROPERTIES Forward
CHECK_DEADLOCK FALSE
