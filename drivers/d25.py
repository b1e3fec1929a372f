"""C25: selecting and resampling arrays."""
import numpy as np

from base import *
from raytools import translate


def sel_of(r, s):
    """the selector as an argument, in one of its forms"""
    if s["k"] == "none":
        return None
    if s["k"] == "slice":
        return slice(*[(q[0] if len(q) else None) for q in (s["start"], s["stop"], s["step"])])
    i = list(s["i"])
    if len(i) == 1 and r.random() < .5:
        return [i[0], np.int64(i[0])][r.integers(2)]
    if not i:
        return np.array([], int)
    return [i, tuple(i), np.array(i), np.reshape(i, (1, -1))][r.integers(4)]


def rand_sel(r):
    q = r.random()
    e = dict(k="none", start=[], stop=[], step=[], i=[])
    if q < .15:
        return e
    if q < .55:
        e["k"] = "slice"
        for f in ("start", "stop"):
            if r.random() < .7:
                e[f] = [int(r.integers(-7, 8))]
        if r.random() < .6:
            e["step"] = [int(r.choice([-3, -2, -1, 1, 2, 3]))]
        return e
    e["k"] = "seq"
    e["i"] = [int(i) for i in r.integers(-2, 2, int(r.integers(0, 5)))]
    return e


def take(rec, r, sh, sels, axes):
    a = np.arange(int(np.prod(sh))).reshape(sh)
    if r.random() < .3:
        a = np.asfortranarray(a)
    kw = {}
    if axes is not None:
        ax = [int(i) for i in axes]
        kw["axes"] = (ax[0] if len(ax) == 1 and r.random() < .5 else ax if r.random() < .5 else np.array(ax) if r.random() < .5 else tuple(ax))
    args = [sel_of(r, s) for s in sels]

    def go():
        o = translate.simple_take(a, *args, **kw)
        return dict(osh=shp(o), o=np.ravel(o).tolist())
    rec.call("take", go, sh=list(sh), sel=sels, axes=[int(i) for i in (range(len(sels)) if axes is None else axes)])


def res(rec, r, sh, o, m):
    a = r.choice([r.normal(size=sh) * 10. ** r.uniform(-3, 4), r.integers(0, 9, sh).astype(float), np.where(r.random(sh) < .2, 1., 0)][r.integers(3)][None])
    if o == "up" and r.random() < .3:
        a = r.integers(-9, 9, sh)
    sh = tuple(sh)
    s = [0. for _ in sh]
    if o in ("up", "ups"):
        ts = tuple(int(i * j) for i, j in zip(sh, m))
    elif o == "down":
        ts = tuple(int(i // j) for i, j in zip(sh, m))
    else:
        ts = sh
    kw = {}
    if o == "up":
        kw["gauss"] = False
        if r.random() < .3:
            kw["radius"] = 2
    elif o == "ups":
        s = [float(i - 1) for i in m]
        if r.random() < .5:
            if r.random() < .5:
                kw["radius"] = v = float(r.choice([0, .3, .8, 1, 1.7]))
                s = [v for _ in sh]
            else:
                s = [float(i) for i in r.uniform(0, 1.5, len(sh))]
                kw["radius"] = tuple(s)
    elif o == "down" and r.random() < .5:
        kw["gauss"] = bool(r.random() < .5)
    elif o == "smooth":
        v = m[0] / 2 if r.random() < .5 else float(r.uniform(.2, 2))
        kw["radius"] = v
        s = [v for _ in sh]
    elif o == "box":
        kw["gauss"] = False
        kw["radius"] = m[0] + (float(r.choice([0, .7])) if r.random() < .5 else 0)
    elif o == "same" and r.random() < .5:
        kw["gauss"] = bool(r.random() < .5)
    if ts != sh or r.random() < .5:
        kw["ts"] = list(ts) if r.random() < .3 else ts
    if o == "up" and r.random() < .3:
        a = np.asfortranarray(a)

    def go():
        x = translate.resample(a, **kw)
        return dict(rsh=shp(x), r=arr(np.ravel(x)))
    rec.call("res", go, sh=list(sh), a=arr(np.ravel(a)), o=o, m=[int(i) for i in m], s=arr(np.array(s)))


def main():
    rec = Rec()
    for rep in range(4 if THOROUGH else 1):
        seen = set()
        for n, c in enumerate(rec.cases):
            r = rng(25, rep, n, rec.shard)
            if c["k"] == "take":
                if r.random() < (1 if THOROUGH else .25):
                    ops = c["ops"]
                    axes = [o["a"] for o in ops]
                    if axes == list(range(len(ops))) and r.random() < .5:
                        axes = None
                    take(rec, r, c["sh"], [o["s"] for o in ops], axes)
            elif r.random() < (.6 if THOROUGH else .25) or json.dumps(c) not in seen and c["n"] == 1:
                seen.add(json.dumps(c))
                res(rec, r, c["sh"], c["o"], c["m"])
        for k in range(60):
            r = rng(2525, rep, k, rec.shard)
            nd = int(r.integers(1, 5))
            sh = [int(i) for i in r.integers(2, 6, nd)]
            sels = [rand_sel(r) for _ in range(int(r.integers(1, nd + 1)))]
            axes = None if r.random() < .4 else [int(i) for i in r.integers(-nd, nd, len(sels))]
            take(rec, r, sh, sels, axes)
        for k in range(8):
            r = rng(252525, rep, k, rec.shard)
            res(rec, r, [int(i) for i in r.integers(1, 6, int(r.integers(1, 4)))], "same", [])
            f = int(r.integers(4, 131))
            t = int(r.integers(1, 4))
            if r.random() < .5:
                res(rec, r, [f * t], "down", [f])
            elif f < 60:
                res(rec, r, [t * 2, f * t], "down", [int(r.integers(1, 3)), f])
            else:
                res(rec, r, [f * t, 1], "down", [f, 1])
            res(rec, r, [int(r.integers(1, 9))], "up", [f])
            if rec.shard + 8 * k < 40:   # every large factor, in turn
                g = 60 + (2 * (rec.shard + 8 * k) + SEED) % 80
                res(rec, r, [g * t], "down", [g])
    rec.end()


main()
