import random


def run(ck):
    cases = ck.generate("Nproc", minstates=10000,
                        **({} if not ck.thorough else dict(cfgtext=CFG4)))
    r = random.Random(ck.seed)
    r.shuffle(cases)
    lim = 4000 if not ck.thorough else 60000
    ck.notes["histories_of_the_model"] = len(cases)
    chains = ck.drive("d02.py", cases[:lim], shards=8)
    ck.judge("NprocTrace", chains)


CFG4 = """SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS LastWins Explicit NoOps Idempotent Emit
CHECK_DEADLOCK FALSE
"""
