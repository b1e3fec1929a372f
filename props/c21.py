import random


def run(ck):
    if ck.thorough:
        h = ck.generate("Hist", minstates=36000)
        h5 = ck.generate("Hist", minstates=300000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS Depth = 5\n"
                         "INVARIANTS Fresh Answer Empty Emit\nCHECK_DEADLOCK FALSE\n")
    else:
        h = ck.generate("Hist", minstates=36000)
        h5 = []
    b = ck.generate("Batch", minstates=35000)
    rnd = random.Random(ck.seed)
    # histories that change the view or the resolution between two computations matter most
    hot = [c for c in h if c["h"][0][0] in ("compute", "lum") and sum(x[0] in ("vm", "lum") for x in c["h"]) >= 2]
    n = 6 if ck.thorough else 1
    cases = rnd.sample(hot, 180 * n) + rnd.sample(h, 120 * n) + rnd.sample(h5, 800 if h5 else 0) + rnd.sample(b, 40 * n)
    rnd.shuffle(cases)
    chains = ck.drive("d21.py", cases, shards=8, timeout=850)
    ck.judge("HistTrace", chains, timeout=850)
