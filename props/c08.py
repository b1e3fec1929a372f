def run(ck):
    if ck.thorough:
        cases = ck.generate("Bins", minstates=5000, cfgtext="SPECIFICATION Spec\nCONSTANTS MaxSide = 14\n"
                            "INVARIANTS There Unfold Sky SkyBack Touch Far Emit\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = ck.generate("Bins", minstates=1000)
    chains = ck.drive("d08.py", cases, shards=8, timeout=850)
    ck.judge("BinsTrace", chains)
