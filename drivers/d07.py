"""C07: the concentric map and its inverse."""
import itertools

import numpy as np

from base import *
from raytools import translate

N = 24
PERM = list(itertools.permutations(range(3)))
KINDS = ["xy"] + ["fwd"] * 3 + ["inv"] * 4 + ["trip"] * 3


def points(cases, r, m):
    """lattice points as the model enumerates them, some moved within their cell"""
    p = np.array([(i / N + h / 1000 / N, j / N + h / 1000 / N) for i, j, h in cases])
    if m == 1:        # next to the lattice
        p = p + r.choice([-1, 1], p.shape) * 10.0 ** r.integers(-15, -3, p.shape)
    elif m == 2:      # on diagonals
        p[:, 1] = np.where(p[:, 0] > 1, p[:, 0] - 1, p[:, 0])
        k = r.random(len(p)) < .5
        p[k, 1] = 1 - p[k, 1]
    elif m == 3:
        p = np.stack((r.random(len(p)) * 2, r.random(len(p))), 1)
    elif m == 4:      # next to the centres
        p = np.array([.5, .5]) + np.stack((r.integers(0, 2, len(p)), np.zeros(len(p))), 1) \
            + r.normal(size=p.shape) * 10.0 ** r.integers(-12, -2, len(p))[:, None]
    elif m == 5:      # random edges
        k = r.integers(0, 2, len(p))
        p = np.stack((r.random(len(p)) * 2, r.random(len(p))), 1)
        p[k == 0, 1] = r.integers(0, 2, (k == 0).sum())
        p[k == 1, 0] = r.integers(0, 3, (k == 1).sum())
    return np.clip(p, 0, (2, 1))


def directions(pts, axes, r, m, norm):
    d = translate.uv2xyz(pts)
    if m in (1, 5):
        # axis aligned, on coordinate planes, on sector boundaries
        s = np.array(list(itertools.product((-1, 0, 1), repeat=3)), float)
        d[:] = s[[i for i in r.integers(0, 27, len(d))]]
        d[np.all(d == 0, 1)] = (0, 0, -1)
        d /= np.linalg.norm(d, axis=1)[:, None]
    o = np.empty_like(d)
    for j, a in enumerate(axes):
        o[:, a] = d[:, j]
    o /= np.linalg.norm(o, axis=1)[:, None]
    if norm:
        o = o * 10 ** r.uniform(-3, 3, (len(o), 1))
    return o


def main():
    rec = Rec()
    B = 24
    reps = 20 if THOROUGH else 3
    for rep in range(reps):
        for b in range(0, len(rec.cases), B):
            n = (rep * 100000 + b // B) * rec.nshards + rec.shard
            r = rng(7, n)
            m = n % 6 if rep or n % 3 else 0
            p = points(rec.cases[b:b + B], r, m)
            kind = KINDS[int(r.integers(0, len(KINDS)))]
            axes = PERM[int(r.integers(0, 6))] if r.random() < .7 else (0, 1, 2)
            dflt = axes == (0, 1, 2) and r.random() < .5
            kw = {} if dflt else {"axes": axes}
            if kind == "xy":
                rec.call("xy", lambda: {"xy": arr(translate.uv2xy(p))}, uv=arr(p))
            elif kind == "fwd":
                x = int(r.choice([-1, 1]))
                if not dflt or x != 1:
                    kw["xsign"] = x
                rec.call("fwd", lambda: {"xyz": arr(translate.uv2xyz(p, **kw))}, uv=arr(p), axes=axes, xsign=x)
            elif kind == "inv":
                norm, flip = bool(r.integers(0, 2)), bool(r.integers(0, 2))
                d = directions(p, axes, r, m, norm)
                if norm or not dflt:
                    kw["normalize"] = norm
                if flip or not dflt:
                    kw["flipu"] = flip
                rec.call("inv", lambda: {"uv": arr(translate.xyz2uv(d, **kw))}, xyz=arr(d), axes=axes,
                         norm=norm, flipu=flip)
            else:
                x = int(r.choice([-1, -1, 1]))
                nm = bool(r.integers(0, 2))

                def trip():
                    d = translate.uv2xyz(p, axes=axes, xsign=x)
                    q = translate.xyz2uv(d, normalize=nm, axes=axes, flipu=x < 0)
                    d2 = translate.uv2xyz(q, axes=axes, xsign=x)
                    return {"xyz": arr(d), "uv2": arr(q), "xyz2": arr(d2)}
                rec.call("trip", trip, uv=arr(p), axes=axes, xsign=x)
    # a single point or direction
    for n in range(40):
        if not rec.mine():
            continue
        r = rng(70, n)
        p = (float(r.random() * 2), float(r.random()))
        if n % 2:
            rec.call("fwd", lambda: {"xyz": arr(translate.uv2xyz(p))}, uv=[arr(p)], axes=(0, 1, 2), xsign=1)
        else:
            d = r.normal(size=3)
            rec.call("inv", lambda: {"uv": arr(translate.xyz2uv(list(d), normalize=True))}, xyz=[arr(d)], axes=(0, 1, 2),
                     norm=True, flipu=False)
    rec.end()


if __name__ == "__main__":
    main()
