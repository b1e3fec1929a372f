import random


def run(ck):
    one = ck.generate("Cli", minstates=1900)
    two = ck.generate("Cli", cfg="Cli2.cfg", minstates=25000)
    met = ck.generate("Report", minstates=130000)
    rnd = random.Random(ck.seed)
    n = 8 if ck.thorough else 1

    def some(cases, k, what):
        """the same share for every kind of command"""
        kinds = {}
        for c in cases:
            kinds.setdefault(what(c), []).append(c)
        out = []
        for v in sorted(kinds):
            out += rnd.sample(kinds[v], min(len(kinds[v]), k))
        return out

    def kind(c):
        x = c["h"][-1]
        return (x["c"]["cmd"], len(x["files"]), x["c"].get("useview"), x["c"].get("toang"), x["c"].get("va"))
    # a second command that reads what the first wrote matters most
    hot = [c for c in two if any("_" in f[0] for f in c["h"][1]["files"])]
    cases = some(one, 7 * n, kind) + some(hot, 9 * n, lambda c: kind(c)[0]) + rnd.sample(two, 16 * n) + rnd.sample(met, 80 * n)
    # nothing but glare sensation scores
    cases += rnd.sample([c for c in met if set(c["ms"]) <= {"gss", "gssnb"}], 5 * n)
    rnd.shuffle(cases)
    chains = ck.drive("d27.py", cases, shards=8, timeout=850)
    ck.judge("CliTrace", chains, timeout=850)
