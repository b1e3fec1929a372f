"""C24: culling near duplicates, reflecting."""
import numpy as np
from scipy.spatial import cKDTree

from base import *
from raytools import translate


def unit(v):
    return v / np.linalg.norm(v, axis=-1, keepdims=True)


def mask(m, n):
    m = np.asarray(m)
    if m.shape != (n,) or m.dtype != bool:
        raise ValueError("mask")
    return m.astype(int).tolist()


def cull(rec, v, tol):
    n = len(v)

    def go():
        a = mask(translate.cull_vectors(v.copy(), tol), n)
        t = cKDTree(v.copy())
        b = mask(translate.cull_vectors(t, tol), n)
        c = mask(translate.cull_vectors(t, tol), n)
        return dict(m=a, tm=b, am=c)
    rec.call("cull", go, v=arr(v), tol=fx(tol))


def reflect(rec, ray, nrm):
    R, N = len(ray), len(nrm)

    def go():
        o, m = translate.reflect(ray, nrm)
        f = translate.reflect(ray, nrm, True)
        oo = np.reshape(o, (R * N, 3))
        u = []
        for i in range(R * N):
            u.append(np.reshape(translate.reflect(oo[i:i + 1], nrm[i % N:i % N + 1])[0], 3))
        return dict(o=arr(oo), sh=shp(o), m=np.ravel(m).astype(int).tolist(), msh=shp(m), f=arr(np.reshape(f, (-1, 3))), u=arr(u))
    rec.call("refl", go, r=arr(ray), n=arr(nrm))


def main():
    rec = Rec()
    for rep in range(3 if THOROUGH else 1):
        for n, c in enumerate(rec.cases):
            r = rng(24, rep, n, rec.shard)
            if c["k"] == "cull":
                if r.random() > (.5 if THOROUGH else .05):
                    continue
                p = np.array(c["p"], float)
                tol = float(c["tol"])
                if r.random() < .7:
                    tol += .3
                kind = r.integers(4)
                if kind == 0:            # along a line
                    v = p[:, None] * unit(r.normal(size=3)) + r.normal(size=3)
                elif kind == 1:          # along an axis, exact
                    v = p[:, None] * np.eye(3)[r.integers(3)]
                elif kind == 2:          # along an arc of directions
                    a = unit(r.normal(size=3))
                    b = unit(np.cross(a, r.normal(size=3)))
                    s = 10. ** r.uniform(-5, -1)
                    v = np.cos(p * s)[:, None] * a + np.sin(p * s)[:, None] * b
                    tol = 2 * np.sin(tol * s / 2)
                else:                    # among others
                    v = np.vstack((p[:, None] * [1, 0, 0], r.integers(-3, 9, (int(r.integers(1, 14)), 3)) * [1, .7, .7]))
                    v = v[r.permutation(len(v))]
                if kind in (0, 1) and r.random() < .5:
                    s = 10. ** r.uniform(-4, 2)
                    v, tol = v * s, tol * s
                cull(rec, v, tol)
            elif len(c["n"]):
                s = np.array(c["s"][:3]) / c["s"][3]
                nrm = np.array([np.array(q[:3]) / q[3] for q in c["n"]])
                ray = s[None]
                kind = r.integers(5)
                if kind == 1:
                    ray = np.vstack((ray, unit(r.normal(size=(int(r.integers(1, 4)), 3)))))
                elif kind == 2:          # some not of unit length
                    ray = np.vstack((ray, r.normal(size=(int(r.integers(1, 3)), 3)), ray * 2))
                    nrm = nrm * np.where(r.random(len(nrm)) < .3, 1.5, 1)[:, None]
                elif kind == 3:          # as many rays as components
                    ray = np.vstack((ray, unit(r.normal(size=(2, 3)))))
                elif kind == 4:
                    nrm = nrm * np.where(r.random(len(nrm)) < .5, r.choice([1.01, .5, -1]), 1)[:, None]
                reflect(rec, ray, nrm)
        for k in range(20):
            r = rng(2424, rep, k, rec.shard)
            n = int(r.choice([1, 2, 8, 17, 33, 50]))
            d = int(r.choice([1, 2, 3, 3]))
            v = np.zeros((n, 3))
            v[:, :d] = r.uniform(-1, 1, (n, d))
            if r.random() < .5:
                v = unit(v + [0, 0, 1e-3])
            if r.random() < .3:          # exact copies, in any place
                v = v[r.integers(0, n, n)]
            if r.random() < .3:          # a random walk: chains
                v = np.cumsum(unit(r.normal(size=(n, 3))) * r.uniform(.2, 1.2, (n, 1)), 0)
                if r.random() < .5:
                    v = v[r.permutation(n)]
            tol = float(r.choice([0, 1e-9, .05, .3, 1, 1, 3]))
            if k % 5 == 0:               # tight groups, about the tolerance apart
                tol = 1.
                at = np.cumsum(unit(r.normal(size=(3, 3))) * r.choice([.93, .97, 1.03, 1.07], (3, 1)), 0)
                v = (at[:, None] + r.uniform(-.004, .004, (3, 20, 3))).reshape(-1, 3)
            cull(rec, v, tol)
    rec.end()


main()
