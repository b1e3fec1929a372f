import random


def run(ck):
    cases = ck.generate("Img", minstates=20000)
    rnd = random.Random(ck.seed)
    by = {}
    for c in cases:
        by.setdefault((c["given"], c["hdr"], c["view"], c["peak"], "irradiance" in c["ms"]), []).append(c)
    cases = [c for k in sorted(by) for c in rnd.sample(by[k], 20 if ck.thorough else 2)]
    rnd.shuffle(cases)
    chains = ck.drive("d30.py", cases, shards=8, timeout=850)
    ck.judge("ImgTrace", chains, timeout=850)
