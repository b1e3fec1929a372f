def run(ck):
    if ck.thorough:
        cases = ck.generate("Reproj", minstates=20, timeout=850, cfgtext="SPECIFICATION Spec\n"
                            "CONSTANTS N = 12 Turns = {0, 90, 180, 270, 360, 450, 30, 45, 350, 200, 1, 179, 720, 135}\n"
                            "INVARIANTS Quarter Back Radius Aims Solids Plane Emit\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Reproj", minstates=20)
    chains = ck.drive("d13.py", [c for c in cases for _ in range(8)], shards=8, timeout=850)
    ck.judge("ReprojTrace", chains, timeout=850)
