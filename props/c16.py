import json
import os


def run(ck):
    n = 4
    cases = ck.generate("Cache", minstates=4000)
    if ck.thorough:
        ck.model("Cache", minstates=30000, timeout=850, cfgtext="SPECIFICATION Spec\nCONSTANTS Slots = {1, 2} Data = {1, 2} MaxLen = 5 Reuse = FALSE\n"
                 "INVARIANTS Own Kept\nCHECK_DEADLOCK FALSE\n")
    else:
        cases = cases[::3]
    chains = ck.drive("d16.py", cases, shards=8, timeout=850)
    ref = [c for c in chains if c[0]["k"] == "ref"]
    chains = [c for c in chains if c[0]["k"] != "ref"]
    f = os.path.join(ck.scratch, "ref.json")
    with open(f, "w") as fh:
        json.dump(ref[0][0]["ref"] if ref else {}, fh)
    ck.judge("CacheTrace", chains, extra_env={"REF_FILE": f}, timeout=850)
