def run(ck):
    if ck.thorough:
        cases = ck.generate("Cull", minstates=300000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS N = 6 Top = 6 Tols = {1, 2}\n"
                            "INVARIANTS Disjoint Partly Always Done Emit\nCHECK_DEADLOCK FALSE\n")
        cases = cases[:: 3]
        cases += ck.generate("Refl", minstates=10000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS Starts = {1, 2, 3, 4, 5, 6, 7, 8} Turns = 4\n"
                             "INVARIANTS Length Undone Either Angle Emit\nCHECK_DEADLOCK FALSE\n")[:: 2]
    else:
        cases = ck.generate("Cull", minstates=90000)
        cases += ck.generate("Refl", minstates=2000)
    chains = ck.drive("d24.py", cases, shards=8, timeout=850)
    ck.judge("VecTrace", chains, timeout=850)
