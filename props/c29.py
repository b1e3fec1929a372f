import random


def run(ck):
    if ck.thorough:
        cases = ck.generate("RayPath", minstates=5000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS MaxInit = 4 Calls = 2\n"
                            "INVARIANTS OnceEach AtFront Nothing NoMore InOrder Again Emit\nCHECK_DEADLOCK FALSE\n")
        more = ck.generate("RayPath", minstates=5000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS MaxInit = 2 Calls = 4\n"
                           "INVARIANTS OnceEach AtFront Nothing NoMore InOrder Again Emit\nCHECK_DEADLOCK FALSE\n")
        rnd = random.Random(ck.seed)
        cases = rnd.sample(cases, 20000) + rnd.sample(more, 20000)
    else:
        cases = random.Random(ck.seed).sample(ck.generate("RayPath", minstates=5000), 5000)
    chains = ck.drive("d29.py", cases, shards=8, timeout=850)
    ck.judge("RayTrace", chains, timeout=850)
