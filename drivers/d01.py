"""C01: schedules and argument shapes through raytools.utility.pool_call"""
import os
import sys
import threading
import time
import json

from base import Rec, event, pyrng, THOROUGH, exc_of

try:
    from raytools.utility import pool_call
    from raytools import io as rio
except Exception:
    print("DRIVER-IMPORT", file=sys.stderr)
    raise


class Odd(Exception):
    def __init__(self, n):
        super().__init__(n)
        self.n = n


EXCS = [ValueError, KeyError, Odd, RuntimeError, IndexError]


def log(d, what):
    fd = os.open(os.path.join(d, "log"), os.O_WRONLY | os.O_APPEND | os.O_CREAT, 0o644)
    os.write(fd, (what + "\n").encode())
    os.close(fd)


def readlog(d):
    try:
        with open(os.path.join(d, "log")) as f:
            return [x.split() for x in f.read().splitlines()]
    except FileNotFoundError:
        return []


def gated(i, d, fails, parent=0):
    """a call that ends only when its gate is opened"""
    log(d, f"start {i} {int(os.getpid() == parent)}")
    t0 = time.time()
    while not os.path.exists(os.path.join(d, f"go{i}")) and time.time() - t0 < 90:
        time.sleep(0.002)
    log(d, f"fin {i}")
    if i in fails:
        raise EXCS[i % len(EXCS)](i)
    return i * 10


def wait_for(pred, limit=30):
    t0 = time.time()
    while time.time() - t0 < limit:
        if pred():
            return True
        time.sleep(0.002)
    return False


def sched(rec, c, kind, root):
    """replay one schedule of spec/Pool.tla"""
    d = os.path.join(root, f"s{rec.nn}")
    rec.nn += 1
    os.mkdir(d)
    n, w, fails, order = c["n"], c["w"], c["fails"], c["order"]
    if kind == "thread":
        w = max(n, w)
    stall = []

    def control():
        def started():
            return {int(x[1]) for x in readlog(d) if x[0] == "start"}

        def finished():
            return {int(x[1]) for x in readlog(d) if x[0] == "fin"}
        done = 0
        for i in order:
            # every idle worker has taken an argument before the next release
            want = min(n, w + done)
            if not wait_for(lambda: len(started()) >= want):
                stall.append(f"only {len(started())} of {want} calls running")
                break
            if i not in started():
                stall.append(f"argument {i} not taken in order")
                break
            open(os.path.join(d, f"go{i}"), "w").close()
            if not wait_for(lambda: i in finished()):
                stall.append(f"call {i} did not end")
                break
            done += 1
        for i in range(1, n + 1):
            open(os.path.join(d, f"go{i}"), "w").close()

    th = threading.Thread(target=control, daemon=True)
    head = {"k": "call", "mode": "pool", "n": n, "w": w, "fails": fails, "kind": kind,
            "order": order}
    rec.begin(head)
    th.start()
    ret = {"k": "ret", "exc": "", "which": 0, "res": []}
    try:
        kw = {"workers": "thread"} if kind == "thread" else {"workers": True, "cap": w}
        res = pool_call(gated, [(i,) for i in range(1, n + 1)], d, fails,
                        parent=os.getpid(), pbar=bool(n % 2), **kw)
        log(d, "ret")
        ret["res"] = [repr(x) for x in res]
    except Exception as ex:
        log(d, "ret")
        ret["exc"] = exc_of(ex)
        ret["which"] = ex.args[0] if ex.args and isinstance(ex.args[0], int) else -1
    th.join(100)
    wait_for(lambda: len([x for x in readlog(d) if x[0] == "fin"]) >= n, 20)
    evs = [head]
    for x in readlog(d):
        if x[0] == "start":
            evs.append({"k": "start", "i": int(x[1]), "local": int(x[2])})
        elif x[0] == "fin":
            evs.append({"k": "fin", "i": int(x[1])})
        else:
            evs.append(ret)
    evs.append({"k": "end", "stall": "; ".join(stall)})
    rec.chain(evs)


# ------------------------------------------------------------ argument shapes
def echo(*args, **kw):
    """returns what it was called with"""
    time.sleep(0.001 * (len(repr(args)) % 5))
    d = kw.pop("logdir", None)
    if d is not None:
        log(d, "c " + repr(args[0]).replace(" ", "_"))
    return [repr(a) for a in args], sorted((k, repr(v)) for k, v in kw.items()), os.getpid()


VALUES = [None, False, 0, "", [], (), 0.0, True, {}, "x", float("nan"), b"", set()]


def value(i):
    return VALUES[i]


def thrower(i, bad, d):
    log(d, f"c {i}")
    if i in bad:
        raise EXCS[i % len(EXCS)](i)
    return i


def mapcase(rec, root, args, expand, fixed, kwargs, workers, cap, pbar, context="fork"):
    d = os.path.join(root, f"m{rec.nn}")
    rec.nn += 1
    os.mkdir(d)
    la = [list(a) for a in args] if expand else [[a] for a in args]
    inp = {"k": "map", "args": [[repr(x) for x in a] for a in la],
           "fixed": [repr(x) for x in fixed],
           "kw": [[k, repr(v)] for k, v in sorted(kwargs.items())],
           "workers": repr(workers), "cap": repr(cap), "expand": expand}

    def go():
        r = pool_call(echo, args, *fixed, cap=cap, expandarg=expand, workers=workers,
                      pbar=pbar, context=context, logdir=d, **kwargs)
        calls = sorted(x[1] for x in readlog(d))
        return {"islist": isinstance(r, list), "here": [x[2] == os.getpid() for x in r], "res": [x[0] for x in r],
                "rkw": [[list(p) for p in x[1]] for x in r], "calls": calls,
                "want": sorted(repr(a[0]).replace(" ", "_") for a in
                               [x + list(fixed) for x in la])}
    rec.chain([event(fn=go, **inp)])


def main():
    rec = Rec()
    rec.nn = 0
    root = os.path.join(os.getcwd(), "r")
    os.mkdir(root)
    r = pyrng("d01", rec.shard)
    for c in rec.cases:
        for kind in c["kinds"]:
            sched(rec, c, kind, root)
    # argument shapes
    alls = [("thread", None), (True, 3), (False, None), ("T", 1), ("Threads", 2), (True, 1),
            (None, None), (0, 4), ("t", None), (True, 7), ("yes", 2), ("threads", 1)]
    import numpy as np
    shapes = [
        ([(i, f"a{i}") for i in range(9)], True),
        ([(i,) for i in range(1)], True),
        ([], True),
        ([], False),
        ([f"s{i}" for i in range(7)], False),
        (["ab", "cd", "ef"], True),
        ([(i, (i, i + 1)) for i in range(6)], False),
        (tuple((i % 2, 1) for i in range(8)), True),
        ([7, 7, 7, 3, 3, 9], False),
        ([[i, None, i * 1.5] for i in range(5)], True),
        (np.arange(12).reshape(4, 3), True),
        (list(zip("xyz", range(3))), True),
        ([(i,) for i in range(67, 0, -1)], True),
        (["b", "a", "c", "a"], False),
        ([None, 0, False, ""], False),
        ([(i,) for i in range(200 if not THOROUGH else 1500)], True),
    ]
    fkw = [((), {}), (("F", 2), {}), ((), {"q": 1, "zz": None}), ((3,), {"b": "x", "a": 2.5}),
           ((None, [1]), {"flag": False})]
    for si, (args, ex) in enumerate(shapes):
        for wi, (workers, cap) in enumerate(alls):
            if not rec.mine():
                continue
            fixed, kw = fkw[(si + wi) % len(fkw)]
            if not len(args) and not fixed:
                fixed = (1,)
            mapcase(rec, root, args, ex, fixed, kw, workers, cap, (si + wi) % 3 == 0)
    if rec.shard == 0:
        mapcase(rec, root, [(i, 1) for i in range(4)], True, (2,), {"k": 1}, True, 2, False,
                "forkserver")
    if rec.shard == 1 % rec.nshards:
        mapcase(rec, root, [(i, 1) for i in range(4)], True, (2,), {"k": 1}, True, 2, False,
                "spawn")
    # return values that look empty
    for workers, cap in alls:
        if not rec.mine():
            continue

        def go():
            res = pool_call(value, range(len(VALUES)), workers=workers, cap=cap,
                            expandarg=False, pbar=False)
            return {"res": [repr(x) for x in res], "want": [repr(x) for x in VALUES]}
        rec.call("values", go, workers=repr(workers))
    # exceptions, without gates
    for j in range(24 if not THOROUGH else 120):
        if not rec.mine():
            continue
        n = r.choice([1, 2, 3, 5, 8, 21])
        bad = sorted(r.sample(range(1, n + 1), r.randint(1, min(n, 3))))
        workers, cap = alls[j % len(alls)]
        d = os.path.join(root, f"e{rec.nn}")
        rec.nn += 1
        os.mkdir(d)

        def go():
            try:
                pool_call(thrower, [(i,) for i in range(1, n + 1)], bad, d, workers=workers,
                          cap=cap, pbar=j % 2 == 0)
                o = {"raised": "", "which": 0}
            except Exception as ex:
                o = {"raised": exc_of(ex), "which": ex.args[0] if ex.args and
                     isinstance(ex.args[0], int) else -1}
            o["inline"] = not workers
            if workers:
                time.sleep(0.05)
            o["calls"] = [int(x[1]) for x in readlog(d)]
            return o
        rec.call("throw", go, n=n, bad=bad, names=[EXCS[i % len(EXCS)].__name__
                                                   for i in range(1, n + 1)],
                 workers=repr(workers))
    rec.end()


if __name__ == "__main__":
    main()
