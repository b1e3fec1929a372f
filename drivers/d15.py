"""C15 / C17: metrics of ray sets against the sums of the specification."""
import sys
import warnings

import numpy as np

from base import *
from d10 import unit, make
from raytools.mapper import ViewMapper
from raytools.evaluate import BaseMetricSet, MetricSet, ColorMetricSet

CELL = [(0, 0), (20, 90), (29, 200), (45, 0), (70, 135), (85, 300), (60, 180)]
LUM = [0, 40, 3000, 90000]
OM = [.1, .02, .2, .05, .001, .3, 1 / 7]
PHOT = ["illum", "avglum", "maxlum", "avgraylum", "gcr", "loggcr", "pwavglum", "pwgcr", "logpwgcr", "density", "view_area"]
GLARE = ["srcillum", "srcarea", "backlum", "backlum_true", "tasklum", "threshold", "pwsl2", "log_gc", "dgp_t1",
         "dgp_t2", "dgp", "ugr", "ugp"]


def frame(d):
    z = unit(d)
    up = np.array((0, 1., 0)) if np.hypot(z[0], z[1]) < 1e-8 else np.array((0, 0, 1.))
    x = unit(np.cross(z, up))
    return x, np.cross(x, z), z


def directions(fr, s, t):
    return ((np.sin(s) * np.sin(t))[:, None] * fr[0] + (np.sin(s) * np.cos(t))[:, None] * fr[1]
            + np.cos(s)[:, None] * fr[2])


def edge_of(va):
    h = va * np.pi / 360
    return np.sin(np.pi / 4) / (np.pi / 4) * h / (np.sin(h / 2) / (h / 2)) if va < 180 else np.pi / 2


def away(a, marks, eps=1e-5):
    """angles moved off the marks, where rounding decides"""
    for m in marks:
        k = np.abs(a - m) < eps
        a = np.where(k, m + 2 * eps, a)
    return a


def rayset(r, case, d, va, extra):
    """rays in (and safely out of) a view: sigma, tau, omega, lum"""
    full = va == 360
    edge = np.pi if full else edge_of(va)
    cells = case["lums"]
    s = np.array([np.radians(CELL[c - 1][0]) for c, _ in cells])
    t = np.array([np.radians(CELL[c - 1][1]) for c, _ in cells])
    o = np.array([OM[c - 1] for c, _ in cells])
    lum = np.array([float(LUM[i - 1]) for _, i in cells])
    if not full:
        s = s * edge / (np.pi / 2)
    n = int(extra)
    s2 = np.where(r.random(n) < .8, np.arccos(1 - r.random(n) * (1 - np.cos(min(edge, np.pi)))), r.random(n) * np.pi)
    t2 = r.random(n) * 2 * np.pi
    if not full:       # none where strays are collected
        va2 = np.radians(va / 2)
        k = (s2 > edge - 1e-4) & (s2 < va2 + .03)
        s2[k] = edge * .9 * r.random(k.sum())
    o2 = 10. ** r.uniform(-5, -.5, n)
    l2 = np.where(r.random(n) < .6, r.uniform(0, 200, n), 10. ** r.uniform(2, 5, n))
    l2[r.random(n) < .1] = 0
    if r.random() < .3:    # rays that count for nothing (kept by normalize_peak)
        o2[r.random(n) < .2] = 0
    s, t, o, lum = [np.concatenate(x) for x in ((s, s2), (t, t2), (o, o2), (lum, l2))]
    k = r.permutation(len(s))
    s = away(s, [np.pi / 2])
    return s[k], t[k], o[k], lum[k]


def sets(rec, kind):
    """draw a view, rays and settings for every case"""
    for rep in range(30 if THOROUGH else 3):
        for n, c in enumerate(rec.cases):
            r = rng(kind, rep, n, rec.shard)
            if not THOROUGH and r.random() < .2 and len(c["lums"]) > 1:
                continue
            d = np.array([(0, 0, 1), (0, 0, -1), (0, 1, 0), (-1, 2, 1), (3, -1, -2)][n % 5], float)
            if r.random() < .6:
                d = d + r.normal(size=3) * .3
            va = float(r.choice([180, 180, 180, 60, 120, 360, 150.5]))
            extra = [0, 3, 12, 30][n % 4] if r.random() < .97 else 110
            yield r, n, c, d, va, extra


def main(kind):
    glare = kind == 17
    rec = Rec()
    for r, n, c, d, va, extra in sets(rec, kind):
        s, t, o, lum = rayset(r, c, d, va, extra)
        full = va == 360
        if not glare and r.random() < .08:       # one ray only
            i = int(np.argmax((s < np.pi / 2) & (o > 0)))
            s, t, o, lum = s[i:i + 1], t[i:i + 1], o[i:i + 1], lum[i:i + 1] + .5
        guth = bool(r.random() < .75)
        if not guth:       # Kim's formula needs an angle from the vertical
            s = np.clip(s, 1e-3, np.pi - 1e-3)
        scale = float(r.choice([1, 179, .5, 4, 2.37]))
        thr, rad, low = 2000., 30., False
        if glare:
            thr = float(r.choice([2000, 3000, 5, 1.5, 100, 100.5, 101, 250, .5, 40000]))
            rad = float(r.choice([30, 30, 10, 60, 95]))
            low = bool(r.random() < .5)
            # a dim ray in the task area: background there always is
            s, t = np.append(s, .05), np.append(t, 1.)
            o, lum = np.append(o, r.uniform(.05, .5)), np.append(lum, r.uniform(20, 90))
            lum[-1] = min(lum[-1], 90)
            s = away(s, [np.radians(rad)])
            if r.random() < .4:
                lum = lum / 50
            if scale in (179, 2.37):
                lum = lum / scale
            elif scale != 1:
                lum = lum / scale          # exact: ties stay ties
        w = directions(frame(d), s, t)
        if r.random() < .3:
            w = w * np.exp(r.normal(size=(len(w), 1)))
        cls = [BaseMetricSet, MetricSet, ColorMetricSet][int(r.integers(0, 3))]
        if glare and cls is BaseMetricSet:
            cls = MetricSet
        wt, vl = [], None
        data = lum
        if cls is ColorMetricSet:
            m = int(r.choice([3, 3, 3, 1, 2, 5]))
            vl = (.265, .670, .065) if m == 3 and r.random() < .5 else tuple(r.uniform(.1, 1, m))
            data = r.uniform(0, 1, (len(lum), m)) + 1e-3
            data = data / (data @ np.array(vl))[:, None] * lum[:, None]
            if glare:      # no ties after weighting
                x = data @ np.array(vl)
                data = data * np.where(np.abs(x * scale - thr) < 1e-4 * thr, .99, 1)[:, None]
            wt = vl
        lv = data @ np.array(vl) if vl is not None else data
        # keep away from thresholds that rounding decides
        vm = make(ViewMapper, d, va, r, (0, 0, 0))
        inn = s < (np.pi if full else edge_of(va))
        if glare:
            k = inn & (s < np.radians(rad))
            tl = np.sum(lv[k] * o[k]) / np.sum(o[k]) * scale
            T = thr if thr > 100 else tl * thr
            if thr <= 100 and np.any(np.abs(lv * scale - T) < 1e-6 * T):
                continue
            bgl = lv * scale <= T
            il = np.sum((np.cos(s) * lv * o)[inn])
            bl = np.sum((np.cos(s) * lv * o)[inn & bgl])
            if il <= 1e-3 or bl < 1e-6 * il or bl <= 0:
                continue
        ovm = bool(r.random() < .5) if np.sum(inn) <= 100 else True
        if np.sum(o[inn]) == 0:
            continue
        kw = dict(scale=scale, omega_as_view_area=ovm, guth=guth)
        if glare or cls is not BaseMetricSet and r.random() < .5:
            kw.update(threshold=thr, tradius=rad, lowlight=low)
        if vl is not None and (wt != (.265, .670, .065) or r.random() < .5):
            kw["vlambda"] = vl
        names = list(GLARE if glare else PHOT)
        if cls is ColorMetricSet and not glare:
            names.append("irradiance")
        r.shuffle(names)
        names = names if r.random() < .7 else names[:5]

        def inv():
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ms = cls(w, o, data, vm, **kw)
                v = [arr(np.atleast_1d(getattr(ms, i))) for i in names]
                out = {"v": v}
                if glare:
                    out["src"] = [bool(i) for i in ms.src_mask]
                return out
        rec.call("glare" if glare else "phot", inv, d=arr(d), va=fx(180 if full else va), full=full, g=kw["guth"], s=fx(scale),
                 w=arr(w), o=arr(o), l=arr(np.reshape(data, (len(lum), -1))), wt=arr(wt) if len(wt) else [], n=names,
                 corr=False, thr=fx(thr), rad=fx(rad), low=low)
    if not glare:
        for n in range(40 if THOROUGH else 6):
            nothing(rec, rng(151, n, rec.shard))
    rec.end()


def nothing(rec, r):
    """no ray in view"""
    n = int(r.choice([0, 1, 2, 7]))
    va = float(r.choice([180, 60, 120]))
    d = unit(r.normal(size=3))
    w = directions(frame(d), np.pi - r.random(n) * 1.2, r.random(n) * 2 * np.pi).reshape(-1, 3)
    o, lum = 10. ** r.uniform(-4, 0, n), 10. ** r.uniform(0, 4, n)
    m = int(r.choice([1, 3]))
    names = ["illum", "maxlum", "gcr", "loggcr", "srcillum", "srcarea", "pwsl2"]
    cls = [MetricSet, ColorMetricSet][int(r.integers(2))]
    if cls is ColorMetricSet:
        lum = lum[:, None] * r.random((n, m))
        names.append("irradiance")
    r.shuffle(names)
    kw = {"vlambda": (1.,) * m} if cls is ColorMetricSet else {}

    def inv():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            ms = cls(w, o, lum, ViewMapper(d, va), omega_as_view_area=True, **kw)
            return {"v": [arr(np.atleast_1d(getattr(ms, i))) for i in names]}
    rec.call("none", inv, n=names, m=m)


if __name__ == "__main__":
    main(15)
