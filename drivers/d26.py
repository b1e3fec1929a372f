"""C26: weighted quantiles, smoothing of unevenly spaced data."""
import numpy as np

from base import *
from raytools import translate


def quant(rec, r, d, w, q, t=None):
    d = np.asarray(d, float)
    plain = w is None
    kw = {}
    if not plain:
        w = np.asarray(w, float)
        kw["weights"] = w
        if t is not None:
            kw["t"] = t
    scalar = len(q) == 1 and r.random() < .5
    qa = float(q[0]) if scalar else [list(q), np.array(q)][r.integers(2)]
    k = r.permutation(len(d))
    dd, ww = d, w
    two = len(d) % 2 == 0 and len(d) > 2 and r.random() < .3
    if two and not plain:
        dd, ww = d.reshape(2, -1), w.reshape(2, -1)
        kw["weights"] = ww

    def go():
        o = translate.weighted_quantile(dd, **kw) if scalar and q[0] == .5 else translate.weighted_quantile(dd, q=qa, **kw)
        kk = dict(kw)
        if not plain:
            kk["weights"] = w[k]
        return dict(rsh=shp(o), qsh=shp(np.asarray(qa)), r=arr(np.ravel(o)),
                    one=[fx(translate.weighted_quantile(dd, q=float(i), **kw)) for i in q],
                    med=fx(translate.weighted_median(dd, **kw)),
                    mixed=arr(np.ravel(translate.weighted_quantile(d[k], q=np.array(q), **kk))))
    rec.call("q", go, d=arr(d), w=arr(w) if not plain else [], plain=plain, t=fx(0 if t is None else t), q=arr(np.array(q, float)))


def smooth(rec, r, x, y, xr, sg, ss, bw, am, q):
    n = len(x)
    s = (np.std(x, ddof=1) * n ** -.2 if sg is None else sg) * ss
    xs = np.sort(x)
    for a in (xs if xr is None else xr):
        z = np.abs(xs - a) / s
        i = int(np.searchsorted(xs, a))
        ok = [z] if bw is None else [z[max(0, i - bw):i + bw + n]] + [z[max(0, j - bw):j + bw] for j in range(max(0, i - 1), min(n, i + 2))]
        if np.any((z > 38.2) & (z < 38.8)) or any(35 < np.min(zz) < 39 for zz in ok if len(zz)):
            return
    kw = {}
    if sg is not None:
        kw["sigma"] = sg
    if ss != 1 or r.random() < .3:
        kw["sscale"] = ss
    if bw != 500:
        kw["bw"] = bw
    if xr is not None:
        kw["xr"] = list(xr) if r.random() < .3 else xr
    if am == "median":
        kw["amethod"] = "median"
    elif am == "q":
        kw["amethod"] = float(q[0]) if len(q) == 1 and r.random() < .5 else [tuple(q), list(q), np.array(q)][r.integers(3)]
    elif r.random() < .3:
        kw["amethod"] = "mean"
    yy = y[0] if len(y) == 1 and r.random() < .5 else y
    m = n if xr is None else len(xr)

    def go():
        o = np.asarray(translate.non_uniform_gaussian_filter(x.copy(), yy.copy(), **kw))
        if o.ndim == 1 and am == "median":
            o = o[None]
        if o.ndim != 2:
            raise ValueError(f"shape {o.shape}")
        return dict(r=arr(o))
    rec.call("s", go, x=arr(x), y=arr(y), own=xr is None, xr=arr(np.array([] if xr is None else xr)), sg=fx(0 if sg is None else sg), ss=fx(ss),
             bw=-1 if bw is None else bw, am="mean" if am == "mean" else "q", q=arr(np.array([.5] if am != "q" else q, float)))


def main():
    rec = Rec()
    for rep in range(3 if THOROUGH else 1):
        for n, c in enumerate(rec.cases):
            r = rng(26, rep, n, rec.shard)
            if c["k"] == "q":
                if r.random() > (.4 if THOROUGH else .06):
                    continue
                q = [c["q"] / 40] + [float(i) for i in r.choice([0, 1, .5, r.random(), 1 - 1e-6, 1 - 2.0 ** -53, 1e-9], int(r.integers(0, 4)))]
                s = 10. ** r.uniform(-2, 3)
                o = float(r.choice([0, -7]))
                quant(rec, r, np.array(c["d"]) * s + o, np.array(c["w"]) * 10. ** r.uniform(-2, 2), q)
            else:
                if r.random() > (.3 if THOROUGH else .06):
                    continue
                x = np.array(c["x"], float)
                k = len(x)
                j = int(r.integers(0, 8))
                if j:
                    x = np.concatenate((x, r.uniform(-1, 5, j)))
                if r.random() < .3:
                    x = np.sort(x)
                if r.random() < .5:
                    x = x[r.permutation(len(x))]
                am = str(r.choice(["mean", "mean", "median", "q"]))
                q = [float(i) for i in r.choice([0, 1, .5, .25, .9, r.random()], int(r.choice([1, 1, 2, 3])))]
                feats = 1 if am == "q" and len(q) > 1 else int(r.integers(1, 4))
                y = r.normal(size=(feats, len(x))) * 10. ** r.uniform(-1, 3)
                if r.random() < .1:
                    y[0] = 3
                if am == "q" and r.random() < .2:
                    y[0] = np.round(y[0])
                xr = None
                if r.random() < .6:
                    xr = r.uniform(-2, 6, int(r.integers(1, 7)))
                    if r.random() < .3:
                        xr[0] = r.choice(x)
                    if r.random() < .2:
                        xr[-1] = r.choice([-50, 80])
                sg = c["sg"] / 100 * r.uniform(.8, 1.2) if r.random() < .75 else None
                ss = float(r.choice([1., 1., .5, 2., .05]))
                bw = [None if c["bw"] < 0 else c["bw"], 500, int(r.integers(1, 5))][r.choice(3, p=[.6, .2, .2])]
                smooth(rec, r, x, y, xr, sg, ss, bw, am, q)
        for k in range(30):
            r = rng(2626, rep, k, rec.shard)
            n = int(r.choice([1, 2, 5, 12, 20, 30, 40]))
            d = r.normal(size=n) * 10. ** r.uniform(-2, 4)
            if r.random() < .2 and n > 3:
                d[1] = d[0]
            w = r.uniform(0, 2, n)
            t = None
            if r.random() < .5:
                t = float(r.uniform(-.2, .8))
                w[0] = t + .4
                if n > 2:
                    w[1] = t
            elif r.random() < .3:
                w *= 10. ** r.uniform(-9, 3, n)
            else:
                w[r.random(n) < .2] = 0
                w[0] = 1
            if r.random() < .15:
                w = None
            quant(rec, r, d, w, [float(i) for i in np.concatenate((r.random(2), r.choice([0, 1, .5, 1 - 1e-6, .99999], 2)))], t)
        for k in range(2):
            r = rng(262626, rep, k, rec.shard)
            x, y = np.sort(r.uniform(0, 9, 8)), r.normal(size=(2, 8))
            am = [["sum"], "modes", [.2, 1.2], [-.1], [.2, .4], None][r.integers(6)]
            rec.call("bad", lambda: dict(r=arr(translate.non_uniform_gaussian_filter(x, y, sigma=1., amethod=am))), am=str(am))
    rec.end()


main()
