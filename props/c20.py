def run(ck):
    if ck.thorough:
        cases = ck.generate("Peak", minstates=13000, timeout=850, cfgtext="SPECIFICATION Spec\n"
                            "CONSTANTS NPix = 6 Levels = {10, 9, 5, 3, 2} OmegaPct = {5, 30, 50, 120} Peakcs = {5, 10, 20}\n"
                            "INVARIANTS Chosen Prefix Adds Source Emit\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Peak", minstates=13000)
    chains = ck.drive("d20.py", cases, shards=8, timeout=850)
    ck.judge("PeakTrace", chains, timeout=850)
