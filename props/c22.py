import random


def run(ck):
    eye = ck.generate("Eye", minstates=1000, timeout=850)
    runs = ck.generate("Gss", minstates=7000)
    rnd = random.Random(ck.seed)
    if not ck.thorough:
        eye = rnd.sample(eye, 400)
        # every choice of blurs, some of everything else
        by = {}
        for c in runs:
            by.setdefault((tuple(c["sw"]), c["img"]), []).append(c)
        runs = [c for k in sorted(by) for c in rnd.sample(by[k], 3)]
    rnd.shuffle(runs)
    chains = ck.drive("d22.py", runs + eye, shards=8, timeout=850)
    ck.judge("GssTrace", chains, timeout=850)
