def run(ck):
    if ck.thorough:
        cases = ck.generate("Paint", minstates=900, timeout=850, cfgtext="SPECIFICATION Spec\n"
                            "CONSTANTS W = 5 H = 4 Grows = {0, 1, 2, 3} Steps = 2\n"
                            "INVARIANTS Shape Support Conserved Unpainted Emit\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Paint", minstates=900)
    chains = ck.drive("d12.py", cases, shards=8, timeout=850)
    ck.judge("PaintTrace", chains, timeout=850)
