"""C19: rays at the edge of the view."""
import contextlib
import io
import warnings

import numpy as np

from base import *
from d10 import unit, make
from d15 import frame, directions, edge_of
from raytools.mapper import ViewMapper
from raytools.evaluate import BaseMetricSet, MetricSet, ColorMetricSet


def spiral(n, edge):
    k = np.arange(n) + .5
    return np.arccos(1 - k / n * (1 - np.cos(edge))), (k * 2.39996323) % (2 * np.pi)


def main():
    rec = Rec()
    for rep in range(20 if THOROUGH else 4):
        for n, c in enumerate(rec.cases):
            r = rng(19, rep, n, rec.shard)
            va = float(c["half"] * 2)
            if r.random() < .2:
                va -= float(r.uniform(0, 20))
            half, edge = np.radians(va / 2), edge_of(va)
            d = r.normal(size=3) if r.random() < .8 else np.array((0, 0, r.choice([-1., 1])))
            m = int(r.choice([20, 60, 97, 100, 101, 103, 130, 150]))
            full = r.random() < .06
            if full:
                half = edge = np.pi
                m += 100
            s, t = spiral(m, edge * .9999)
            s = np.clip(s + r.normal(size=m) * .002, 0, edge * .9999)
            o = np.full(m, 2 * np.pi * (1 - np.cos(half)) / m) * r.uniform(.7, 1.3, m) * (100 + c["ring"] * r.choice([-1, 1, 1])) / 100
            lum = r.uniform(.5, 20, m)
            # bright or dim disks about the nominal edge, inside the mask or not
            q = 0 if full else int(r.choice([0, 1, 1, 2, 3, 5]))
            b = np.radians(c["b"] / 100) * r.choice([1, 1, .7, 1.6], q)
            s2 = half + b * r.uniform(-1.6, 1.6, q)
            k = r.random(q) < .3
            s2[k] = half + np.radians(r.choice([-2.5, 1.3, -.7, .7, .97], k.sum()))
            k = np.abs(np.abs(np.degrees(s2) - va / 2) - 1) < .003
            s2[k] += np.radians(.01)
            k = (np.abs(s2 - edge) < 1e-6) | (np.abs(np.abs(s2 - half) - b) < 1e-6)
            s2[k] += 1e-5
            t2 = r.random(q) * 2 * np.pi
            if q > 1 and r.random() < .5:
                t2[1] = t2[0] + .001
            l2 = np.where(r.random(q) < .75, 1e4 * r.uniform(.5, 5, q), r.uniform(1, 40, q))
            s, t, o, lum = [np.concatenate(x) for x in ((s, s2), (t, t2), (o, np.pi * b * b), (lum, l2))]
            if r.random() < .06:
                lum[:] = 0
            if r.random() < .4:      # dim scenes
                lum = lum * 10. ** r.uniform(-6, -1)
            k = r.permutation(len(s))
            s, t, o, lum = s[k], t[k], o[k], lum[k]
            if np.any(lum > 0) and np.any(np.abs(lum / np.average(lum) - 10) < 1e-6):
                continue
            w = directions(frame(d), s, t)
            if r.random() < .3:
                w = w * np.exp(r.normal(size=(len(w), 1)))
            if r.random() < .5:
                o = o.astype(np.float32).astype(float)
            corr = bool(r.random() < .7)
            cls = [MetricSet, BaseMetricSet, ColorMetricSet][int(r.integers(0, 3))]
            data, ch = lum, []
            if cls is ColorMetricSet:
                ch = np.column_stack((lum * r.uniform(.5, 1.5, len(lum)), lum, lum))
                ch[:, 2] = (lum - .265 * ch[:, 0] - .67 * lum) / .065
                data = ch
            vm = make(ViewMapper, d, 360. if full else va, r, (0, 0, 0))
            kw = {} if (cls is BaseMetricSet) != corr and r.random() < .5 else {"omega_as_view_area": not corr}

            def inv():
                keep = w.copy(), o.copy(), data.copy()
                with warnings.catch_warnings(), contextlib.redirect_stderr(io.StringIO()):
                    warnings.simplefilter("ignore")
                    ms = cls(w, o, data, vm, **kw)
                    ms()
                return {"v": arr(ms.vec), "o2": arr(ms.omega), "l2": arr(ms.lum), "area": fx(ms.view_area),
                        "rgb": arr(ms.rgb) if len(ch) else [], "same": bool(all(np.array_equal(x, y) for x, y in zip(keep, (w, o, data))))}
            rec.call("edge", inv, d=arr(d), va=fx(180 if full else va), full=bool(full), w=arr(w), o=arr(o), l=arr(lum), ch=arr(ch) if len(ch) else [], corr=corr)
    rec.end()


if __name__ == "__main__":
    main()
