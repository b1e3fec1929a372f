def run(ck):
    if ck.thorough:
        cases = ck.generate("Take", minstates=100000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS Shapes <- MCShapes Turns = 3\n"
                            "INVARIANTS Dims Valid Others Same Back Ordered Emit\nCHECK_DEADLOCK FALSE\n")[:: 6]
        cases += ck.generate("Resamp", minstates=50000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS Turns = 3\n"
                             "INVARIANTS Constant Fits Kept Undo Within Emit\nCHECK_DEADLOCK FALSE\n")[:: 9]
    else:
        cases = ck.generate("Take", minstates=4000)
        cases += ck.generate("Resamp", minstates=4000)
    chains = ck.drive("d25.py", cases, shards=8, timeout=850)
    ck.judge("ArrTrace", chains, timeout=850)
