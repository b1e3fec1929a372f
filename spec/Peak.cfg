SPECIFICATION Spec
CONSTANTS NPix = 5 Levels = {10, 9, 5, 3, 2} OmegaPct = {5, 30, 50, 120} Peakcs = {5, 10, 20}
INVARIANTS Chosen Prefix Adds Source Emit
CHECK_DEADLOCK FALSE
