import random


def run(ck):
    cases = ck.generate("Header", minstates=14000)
    r = random.Random(ck.seed)
    if not ck.thorough:
        cases = r.sample(cases, 500)
    chains = ck.drive("d04.py", cases, shards=8, timeout=850)
    ck.judge("HeaderTrace", chains)
