SPECIFICATION Spec
CONSTANTS MaxM = 3 MaxI = 3 Known = {"illum", "dgp", "ugr", "gss", "gssnb", "irradiance", "maxlum", "srcarea"} Images = {1, 2, 3}
INVARIANTS InOrder AllOnce ScoresLast Emit
CHECK_DEADLOCK FALSE
