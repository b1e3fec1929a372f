def run(ck):
    if ck.thorough:
        cases = ck.generate("Ret", minstates=1700, timeout=850, cfgtext="SPECIFICATION Spec\n"
                            "CONSTANTS Radii = {0, 1, 2, 3, 5, 7, 10, 15, 19, 26, 37, 45, 52, 70, 90, 120, 148, 180, 223, 260, 300, 340, 400, 452, 500, 550, 600, 630, 660, 700, 755, 790, 820, 860, 900, 1000, 1100, 1400} "
                            "Dirs = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16} Fns = {\"field\", \"cells\", \"own\"}\n"
                            "INVARIANTS Positive Bounded Mirror Fovea Shipped Emit\nPROPERTIES Falls\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Ret", minstates=860)
    cases += ck.generate("Blur", minstates=29000, timeout=850)
    chains = ck.drive("d23.py", cases, shards=8, timeout=850)
    ck.judge("RetTrace", chains, timeout=850)
