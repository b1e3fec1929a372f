SPECIFICATION Spec
CONSTANTS Ws = {50, 183, 400} Mins = {10, 279, 2000} Omegas = {10, 1000, 6797, 100000} Steps = 10000000
INVARIANTS AtLeastOne Dim Saturated ADegree RoundTrip Emit
PROPERTIES Grows
CHECK_DEADLOCK FALSE
