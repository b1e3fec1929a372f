import random


def run(ck):
    cases = ck.generate("Files", minstates=1000)
    if not ck.thorough:
        cases = random.Random(ck.seed).sample(cases, 600)
    chains = ck.drive("d06.py", cases, shards=8, timeout=850)
    ck.judge("FilesTrace", chains)
