import random


def run(ck):
    cases = ck.generate("Pool", minstates=5000)
    r = random.Random(ck.seed)
    r.shuffle(cases)
    lim = 90 if not ck.thorough else len(cases)
    # cover every (n, w, set of failing arguments) first, then fill up
    seen, pick, rest = set(), [], []
    for c in cases:
        k = (c["n"], c["w"], len(c["fails"]), tuple(c["order"]) == tuple(sorted(c["order"])))
        (rest if k in seen else pick).append(c)
        seen.add(k)
    pick = (pick + rest)[:lim]
    for i, c in enumerate(pick):
        c["kinds"] = ["process"] if not ck.thorough else ["process", "thread"]
        if i % 2 == 0 and not ck.thorough:
            c["kinds"] = ["process", "thread"]
    ck.notes["schedules_replayed"] = sum(len(c["kinds"]) for c in pick)
    chains = ck.drive("d01.py", pick, shards=8, timeout=600)
    ck.judge("PoolTrace", chains)
