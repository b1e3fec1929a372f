import random


def run(ck):
    if ck.thorough:
        cfg = open(__import__("os").path.join(__import__("vt").SPEC, "Clean.cfg")).read()
        ck.model("Clean", cfgtext=cfg.replace("MaxLen = 5", "MaxLen = 7").replace(" Emit", ""), minstates=1000000, timeout=3000)
    cases = ck.generate("Clean", minstates=19000)
    two = ck.generate("Clean", cfg="Clean2.cfg", minstates=8900)
    r = random.Random(ck.seed)
    if not ck.thorough:
        cases = r.sample(cases, 2500)
        two = r.sample(two, 1500)
    chains = ck.drive("d05.py", cases + two, shards=8)
    ck.judge("CleanTrace", chains, timeout=3000)
