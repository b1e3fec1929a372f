def run(ck):
    if ck.thorough:
        cases = ck.generate("Quant", minstates=100000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS N = 5 Vals = {0, 2, 5} Wts = {0, 1, 3} Qs = {0, 7, 20, 37, 40}\n"
                            "INVARIANTS Ranged Ends Scale Order AnyOrder Accepts Grid Emit\nPROPERTIES Monotone\nCHECK_DEADLOCK FALSE\n")[:: 12]
        cases += ck.generate("Smooth", minstates=100000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS N = 5 Top = 3 Sigmas = {1, 80, 300} Bws <- MCBws\n"
                             "INVARIANTS Within Flat Order Emit\nPROPERTIES Forward\nCHECK_DEADLOCK FALSE\n")[:: 3]
    else:
        cases = ck.generate("Quant", minstates=14000)
        cases += ck.generate("Smooth", minstates=74000)
    chains = ck.drive("d26.py", cases, shards=8, timeout=850)
    ck.judge("QuantTrace", chains, timeout=850)
