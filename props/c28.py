def run(ck):
    cases = ck.generate("Frame", minstates=11000)
    if ck.thorough:
        cases = cases + ck.generate("Frame", minstates=50000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS Depth = 5\n"
                                    "INVARIANTS OnlyUser OnlySet OneAnswer Emit\nCHECK_DEADLOCK FALSE\n")
    chains = ck.drive("d28.py", cases, shards=8, timeout=850)
    ck.judge("FrameTrace", chains, timeout=850)
