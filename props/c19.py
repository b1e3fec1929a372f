def run(ck):
    if ck.thorough:
        cases = ck.generate("Edge", minstates=1000, timeout=850, cfgtext="SPECIFICATION Spec\n"
                            "CONSTANTS HalfDegs = {90, 85, 60, 30, 10} Steps = 30 Sizes = {5, 27, 60, 90} Rings = {0, 3, 20, 60}\n"
                            "INVARIANTS Within Falls Sliced ChordIn Fits Emit\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Edge", minstates=390)
    chains = ck.drive("d19.py", cases, shards=8, timeout=850)
    ck.judge("EdgeTrace", chains, timeout=850)
