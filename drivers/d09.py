"""C09: angles, rotations, normalisation."""
import numpy as np

from base import *
from raytools import translate as tr


def unit(d):
    d = np.asarray(d, float)
    return d / np.linalg.norm(d, axis=-1)[..., None]


def near(d, r):
    """some vectors moved slightly: next to poles, axes, seams"""
    d = d.copy()
    k = r.random(len(d)) < .4
    d[k] += r.normal(size=(k.sum(), 3)) * 10.0 ** r.integers(-12, -1, (k.sum(), 1))
    k = r.random(len(d)) < .1
    d[k] = r.normal(size=(k.sum(), 3))
    return d


def ulp(d, r):
    """unit vectors off by a rounding error"""
    k = r.random(len(d)) < .15
    d[k] *= 1 + r.choice([-1, 1], (k.sum(), 1)) * 2.3e-16
    return d


def main():
    rec = Rec()
    C = np.array(rec.cases, float)
    for n in range(400 if THOROUGH else 40):
        r = rng(9, n, rec.shard)
        d0 = near(C[r.permutation(len(C))[:int(r.integers(1, 13))]], r)
        d = ulp(unit(d0), r)
        one = len(d) == 1
        x = d[0] if one and n % 2 else d

        def tp():
            t = tr.xyz2tp(x)
            return {"tp": arr(t), "back": arr(tr.tp2xyz(t))}
        rec.call("tp", tp, d=arr(d))

        def aa():
            t = tr.xyz2aa(x)
            return {"aa": arr(t), "back": arr(tr.aa2xyz(t))}
        rec.call("aa", aa, d=arr(d))
        m = 8
        t = np.stack((np.pi * r.choice([0, .25, .5, .75, 1, -1], m), 2 * np.pi * r.choice([0, .25, .5, .75, 1, -1], m)), 1)
        k = r.random((m, 2)) < .5
        t = np.where(k, np.stack((r.uniform(0, np.pi, m), r.uniform(-2 * np.pi, 2 * np.pi, m)), 1), t)
        rec.call("ntp", lambda: {"r": arr(tr.tpnorm(t if n % 2 else t.tolist()))}, tp=arr(t))
        t2 = t.copy()
        t2[:, 0] = np.abs(t2[:, 0])
        nz = bool(r.integers(0, 2))
        kw = {} if nz and n % 2 else {"normalize": nz}
        rec.call("dir", lambda: {"d": arr(tr.tp2xyz(t2, **kw))}, tp=arr(t2), aa=False)
        a2 = np.stack((r.choice([-90, -45, 0, 45, 90, 30.5], m), r.choice([-180, -90, 0, 90, 180, 12.25], m)), 1)
        k = r.random((m, 2)) < .4
        a2 = np.where(k, np.stack((r.uniform(-90, 90, m), r.uniform(-180, 180, m)), 1), a2)
        rec.call("dir", lambda: {"d": arr(tr.aa2xyz(a2))}, tp=arr(a2), aa=True)
        th = np.concatenate((np.array([0, np.pi / 3, np.pi / 2, np.pi]), r.uniform(0, np.pi, 4), 10.0 ** r.uniform(-12, 0, 3)))

        def chord():
            c = tr.theta2chord(th)
            return {"c": arr(c), "t2": arr(tr.chord2theta(c))}
        rec.call("chord", chord, t=arr(th))
        a = unit(near(C[r.integers(0, len(C), 1)], r))[0]
        b = np.concatenate((d, [a, -a, unit(a + 1e-7), -unit(a + 1e-5)]))
        if n % 3 == 0:
            b = b[:1]
        bb = b[0] if n % 6 == 0 else b

        def angle():
            return {"ct": arr(np.ravel(tr.ctheta(a, bb))), "rad": arr(np.ravel(tr.radians(a, bb))), "deg": arr(np.ravel(tr.degrees(a, bb)))}
        rec.call("angle", angle, a=arr(a), b=arr(b))
        for _ in range(2):
            deg = bool(r.integers(0, 2))
            ang = float(r.choice([0, 30, 45, 90, -90, 180, 270, 360, 720.5, r.uniform(-720, 720)])) * (1 if deg else np.pi / 180)
            axis = int(r.integers(0, 3))
            kw = {}
            if axis != 2 or n % 2:
                kw["axis"] = axis
            if not deg or n % 4 < 2:
                kw["degrees"] = deg
            v = d0 * 10 ** r.uniform(-2, 2)
            rec.call("rot", lambda: {"r": arr(tr.rotate_elem(v, ang, **kw)), "m": arr(tr.rmtx_elem(ang, **kw))},
                     v=arr(v), t=fx(ang), axis=axis, degrees=deg)
        for _ in range(3):
            v = near(C[r.permutation(len(C))[:int(r.choice([1, 1, 2, 3, 5]))]], r)
            if r.random() < .3:
                v[0] = r.choice([-1, 1]) * np.array([*(r.normal(size=2) * 10.0 ** r.integers(-20, -3)), 1])
            keep = bool(r.integers(0, 2))
            vv = v[0] if len(v) == 1 and r.random() < .5 else v
            if r.random() < .3:
                vv = vv.tolist()

            def yp():
                y, p = tr.rmtx_yp(vv, keepdims=True) if keep else tr.rmtx_yp(vv)
                return {"ysh": shp(y), "psh": shp(p), "y": arr(y.reshape(-1, 3, 3)), "p": arr(p.reshape(-1, 3, 3))}
            rec.call("yp", yp, v=arr(v), want=[len(v), 3, 3] if keep or len(v) > 1 else [3, 3])
        dim = int(r.integers(2, 5))
        v = r.normal(size=(5, dim)) * 10.0 ** r.integers(-4, 4, (5, 1))
        rec.call("norm", lambda: {"r": arr(tr.norm(v))}, v=arr(v), zero=[False] * 5)
        v1 = np.zeros(dim) if n % 7 == 0 else v[0]
        rec.call("norm", lambda: {"r": [arr(tr.norm1(v1.tolist() if n % 2 else v1))]}, v=[arr(v1)], zero=[bool(n % 7 == 0)])
        fl = bool(r.integers(0, 2))
        kw = {"flip": fl} if fl or n % 2 else {}
        perm = [(0, 1, 2), (1, 2, 0), (2, 1, 0)][n % 3]
        if perm != (0, 1, 2):
            kw["axes"] = perm
        e = np.empty_like(d)
        for i, j in enumerate(perm):
            e[:, j] = d[:, i]
        if perm == (0, 1, 2) or True:
            rec.call("fish", lambda: {"xy": arr(tr.xyz2xy(e[0] if one and n % 2 else e, **kw))}, d=arr(d), flip=fl)
    rec.end()


if __name__ == "__main__":
    main()
