def run(ck):
    if ck.thorough:
        cases = ck.generate("Pos", minstates=3000, timeout=850, cfgtext="SPECIFICATION Spec\n"
                            "CONSTANTS Sigmas = {0, 1, 2, 5, 10, 15, 20, 30, 40, 50, 60, 70, 80, 85, 89, 90, 91, 100, 120, 150, 179, 180} "
                            "Taus = {0, 1, 10, 20, 30, 45, 60, 75, 80, 85, 89, 90, 91, 95, 100, 135, 160, 179, 180, 181, 225, 270, 300, 359} Views = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}\n"
                            "INVARIANTS Relative Angles Bounds Mirror Joins Emit\nPROPERTIES Falls\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Pos", minstates=600)
    chains = ck.drive("d18.py", cases, shards=8 if ck.thorough else 5, timeout=850)
    ck.judge("PosTrace", chains, timeout=850)
