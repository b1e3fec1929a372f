"""C02: histories of the process cap"""
import os
import sys
import time

from base import Rec, event, pyrng, THOROUGH, exc_of

try:
    from raytools import io as rio
    from raytools import utility
    from raytools import cli
except Exception:
    print("DRIVER-IMPORT", file=sys.stderr)
    raise

VAR = "RAYTOOLS_PROC_CAP"
UNSET = "<unset>"
CPUS = os.cpu_count()
SPECIAL = {"None": None, "2.0": 2.0, "'3'": "3", "True": True, "[2]": [2]}


def val(a):
    return SPECIAL[a] if a in SPECIAL else int(a)


def ext(a):
    if a == UNSET:
        os.environ.pop(VAR, None)
    else:
        os.environ[VAR] = a


def op(o, a):
    e = {"k": "op", "o": o, "a": a, "exc": "", "cpus": CPUS}
    try:
        if o in ("ext", "init"):
            ext(a)
        elif o == "set":
            rio.set_nproc(val(a))
        elif o == "unset":
            rio.unset_nproc()
        elif o == "get":
            r = rio.get_nproc() if a == "None" else rio.get_nproc(val(a))
            e["res"] = r if type(r) is int else -555
    except Exception as ex:
        e["exc"] = exc_of(ex)
    e["after"] = os.environ.get(VAR, UNSET)
    return e


def pool(a):
    def go():
        with utility.TStqdm(workers=True, cap=val(a), total=1, disable=True) as p:
            n = p.nworkers
            p.pool.shutdown()
        return {"res": n}
    return event("pool", go, a=a, cpus=CPUS)


def busy(i, d, want):
    """wait until `want` calls are running at the same time"""
    open(os.path.join(d, f"s{i}"), "w").close()
    t0 = time.time()
    most = 0
    while time.time() - t0 < 20:
        names = os.listdir(d)
        act = len([x for x in names if x[0] == "s"]) - len([x for x in names if x[0] == "e"])
        most = max(most, act)
        if most >= want or "full" in names:
            break
        time.sleep(0.002)
    if most >= want:
        open(os.path.join(d, "full"), "w").close()
        time.sleep(0.05)
    names = os.listdir(d)
    act = len([x for x in names if x[0] == "s"]) - len([x for x in names if x[0] == "e"])
    most = max(most, act)
    open(os.path.join(d, f"e{i}"), "w").close()
    return most


def run(a, env, root, n):
    d = os.path.join(root, f"b{n}")
    os.mkdir(d)
    w = val(a) if a != "None" else (int(env) if env != UNSET else CPUS)
    tasks = w + 3

    def go():
        r = utility.pool_call(busy, [(i,) for i in range(tasks)], d, min(w, tasks), cap=val(a), pbar=False)
        return {"most": max(r), "reached": min(max(r), w)}
    return event("run", go, a=a, cpus=CPUS, tasks=tasks)


def clicase(a, path):
    """a command of the command line; its pools are replaced by one that records its size"""
    sizes = []
    orig = utility.TStqdm.__init__

    def rec(self, *args, **kw):
        orig(self, *args, **kw)
        sizes.append(self.nworkers)

    def go():
        utility.TStqdm.__init__ = rec
        try:
            args = [] if a == "None" else ["-n", a]
            try:
                cli.main([*args, "solid2ang", path + " " + path, "--no-stdout"], standalone_mode=False)
            except SystemExit as ex:
                if ex.code:
                    raise RuntimeError(f"exit {ex.code}")
        finally:
            utility.TStqdm.__init__ = orig
        return {"env": os.environ.get(VAR, UNSET), "res": sizes[-1] if sizes else -1}
    return event("cli", go, a=a, cpus=CPUS, env="", res=-1)


def main():
    rec = Rec()
    root = os.getcwd()
    for h in rec.cases:
        rec.begin({"history": h})
        rec.chain([op(x["o"], x["a"]) for x in h])
    r = pyrng("d02", rec.shard)
    alpha = ([("set", a) for a in ("None", "-2", "0", "1", "2", "3", "4", "9", "17", "64", "1000",
                                   "2.0", "'3'", "True", "[2]")] +
             [("unset", "")] * 3 + [("get", a) for a in ("None", "None", "None", "0", "1", "9", "-2")] +
             [("ext", a) for a in (UNSET, "6", " 7 ", "-3", "", "many", "2.5", "+8")])
    for _ in range(40 if not THOROUGH else 400):
        h = [("init", r.choice([UNSET, "6", "many", "-3"]))] + [r.choice(alpha) for _ in range(r.randint(4, 40))]
        rec.begin({"history": h})
        rec.chain([op(*x) for x in h])
    # pools
    n = 0
    for env, seq in ((UNSET, ["2"]), ("3", ["None", "1", "5"]), ("1", ["None", "4"]),
                     (UNSET, ["None", "1"]), ("2", ["None", "3", "None"])):
        if not rec.mine():
            continue
        rec.begin({"pools": [env, seq]})
        ch = [op("init", UNSET)]
        if env != UNSET:
            ch.append(op("set", env))
        for a in seq:
            ch.append(pool(a))
            ch.append(run(a, env, root, n))
            n += 1
        rec.chain(ch)
    # command line
    if rec.shard == 0:
        import numpy as np
        p = os.path.join(root, "im.hdr")
        rio.array2hdr(np.ones((8, 8)), p)
        for seq in (["3", "None", "0", "1"], ["0", "2"], ["None", "5", "-2", "None"]):
            rec.begin({"cli": seq})
            rec.chain([op("init", UNSET)] + [clicase(a, p) for a in seq] + [op("get", "None")])
    rec.end()


if __name__ == "__main__":
    main()
