"""C23: densities over the visual field, the blur of small sources."""
import numpy as np

from base import *
from raytools.evaluate import retina


def own(r, mi):
    return np.array([4., 1., 3., 2.])[mi] / (1 + r)


MER = {"field": retina.rgcf_density_on_meridian, "cells": retina.rgc_density_on_meridian, "own": own}


def flat(a, n):
    a = np.asarray(a, float)
    if a.shape != (n,):
        raise ValueError(f"shape {a.shape}")
    return arr(a)


def density(rec, c, r):
    fn = c["fn"]
    d = c["r"] / 10
    v = np.array(c["v"], float)
    p = d * v / np.linalg.norm(v)
    q = np.vstack((p[None], p[None] + r.normal(size=(3, 2)) * r.choice([1e-3, .5, 10]), r.uniform(-1, 1, (2, 2)) * 10. ** r.uniform(-2, 2)))
    if r.random() < .3:
        q[-1] = r.choice([0, 0, -0., .01, 5], 2)
    q = q[r.permutation(len(q))][: int(r.choice([1, 2, 6, 6]))]
    deg = np.linalg.norm(q, axis=-1)
    mi = r.integers(0, 4, len(q))
    if r.random() < .4:
        mi[:] = mi[0]
    if fn != "own":
        rec.call("mer", lambda: dict(r=flat(MER[fn](deg, mi), len(q))), md=fn, deg=arr(deg), mi=ints(mi), kf="retina-field-scale")
    f = MER[fn]
    args = () if fn == "field" and r.random() < .5 else (f,)
    rec.call("xy", lambda: dict(r=flat(retina.rgcf_density_xy(q.copy(), *args), len(q))), md=fn, xy=arr(q), kf="retina-vertical-meridian")
    u = q / 90
    m = u * [-1, 1]
    both = (lambda a: retina.binocular_density(a, f)) if fn == "own" or r.random() < .3 else \
        {"field": retina.rgcf_density, "cells": retina.rgc_density}[fn]
    rec.call("bino", lambda: dict(r=flat(both(u.copy()), len(q)), mr=flat(both(m.copy()), len(q))), md=fn, xy=arr(u), kf="retina-vertical-meridian")


def psf(rec, r):
    kw = {}
    fwhm = .183333
    if r.random() < .7:
        kw["fwhm"] = fwhm = float(10. ** r.uniform(-2, 1))
    x = np.sort(fwhm * np.concatenate((10. ** r.uniform(-2, 2, 4), [1])))
    v = r.uniform(.0005, 1, 4)
    v[0] = 1

    def go():
        y = retina.hpsf(x, **kw)
        b = [retina.inv_hpsf(i, **kw) for i in y] if r.random() < .4 else retina.inv_hpsf(y, **kw)
        return dict(c=fx(retina.hpsf(0, **kw)), h=fx(retina.hpsf(fwhm / 2, **kw)), y=flat(y, 5), b=flat(b, 5),
                    iv=flat(retina.inv_hpsf(v, **kw), 4))
    rec.call("psf", go, x=arr(x), fwhm=fx(fwhm), v=arr(v))


def blur(rec, c, r):
    kw = {}
    fwhm, lmin = .183333, 279.33
    if c["w"] != 183 or r.random() < .3:
        kw["fwhm"] = fwhm = float(c["w"] / 1000 * r.uniform(.9, 1.1))
    if c["mn"] != 279 or r.random() < .3:
        kw["lmin"] = lmin = float(c["mn"] * r.uniform(.9, 1.1))
    o = float(c["o"] * 1e-8 * r.uniform(.9, 1.1))
    cap = lmin / retina.hpsf(1)
    l = np.sort(np.concatenate(([c["l"] / 10], lmin * np.array([.3, 1, 1 + 1e-6, 1.5]),
                                [cap * .99, cap * 1.01, cap * 50], lmin * 10. ** r.uniform(0, 4, 3))))

    def go():
        a = flat(retina.blur_sun(o if r.random() < .5 else np.full(len(l), o), l, **kw), len(l))
        return dict(r=a, s=[fx(retina.blur_sun(o, float(i), **kw)) for i in l])
    rec.call("blur", go, o=fx(o), l=arr(l), lmin=fx(lmin), fwhm=fx(fwhm))


def main():
    rec = Rec()
    for rep in range(4 if THOROUGH else 1):
        for n, c in enumerate(rec.cases):
            r = rng(23, rep, n, rec.shard)
            if "fn" in c:
                if rep == 0 or r.random() < .5:
                    density(rec, c, r)
            elif THOROUGH and r.random() < .1 or not THOROUGH and r.random() < .04:
                blur(rec, c, r)
        for _ in range(40):
            psf(rec, rng(2323, rep, _, rec.shard))
    rec.end()


main()
