def run(ck):
    if ck.thorough:
        cases = ck.generate("Cone", minstates=500, timeout=850, cfgtext="SPECIFICATION Spec\n"
                            "CONSTANTS Angles = {1, 5, 20, 60, 90, 120, 150, 179, 180, 360} G = 40\n"
                            "INVARIANTS Covers Hemi Swept Positive Member Emit\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Cone", minstates=400)
    chains = ck.drive("d11.py", cases, shards=8, timeout=850)
    ck.judge("ConeTrace", chains)
