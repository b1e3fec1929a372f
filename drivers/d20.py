"""C20: consolidating the peak."""
import numpy as np

from base import *
from d10 import unit
from raytools import imagetools
from raytools.evaluate import retina

PEAKA = 6.7967e-05


def around(r, d, ang):
    """directions at the given angles from d"""
    a = unit(np.cross(d, unit(r.normal(size=(len(ang), 3)))))
    return unit(np.cos(ang)[:, None] * unit(d) + np.sin(ang)[:, None] * a)


def src(p):
    return [arr(np.ravel(p[0])), fx(p[1]), arr(np.atleast_1d(p[2]))]


def vol(v, o, l):
    l = np.asarray(l)
    if l.ndim > 2 or len(l) != len(o):
        raise ValueError("shape")
    return [arr(v), arr(o), arr(l.reshape(len(l), -1) if len(l) else l)]


def main():
    rec = Rec()
    for rep in range(6 if THOROUGH else 1):
        for n, c in enumerate(rec.cases):
            r = rng(20, rep, n, rec.shard)
            if not THOROUGH and r.random() < .55:
                continue
            kw = {}
            if r.random() < .3:
                kw["peaka"] = float(PEAKA * r.uniform(.5, 3))
            if r.random() < .3:
                kw["peakrad"] = float(r.uniform(1.5, 8))
            if r.random() < .2:
                kw["peakr"] = float(r.choice([1.01, 2.3, 4.1, 20]))
            if r.random() < .2:
                kw["blurtol"] = float(r.choice([1, .97, .45, .1]))
            if c["pkc"] != 10:
                kw["peakc"] = c["pkc"] / 10
            blur = bool(r.random() < .4)
            if blur:
                kw["blursun"] = True
            scale = float(r.choice([179, 179, 1, 20]))
            peakt = float(r.choice([1e5, 1e5, 2e4]))
            if scale != 179 or r.random() < .5:
                kw["scale"] = scale
            if peakt != 1e5:
                kw["peakt"] = peakt
            pa, pr = kw.get("peaka", PEAKA), kw.get("peakrad", 4.)
            rad = np.sqrt(pa / np.pi) * pr
            d = unit(r.normal(size=3))
            unitl = peakt / scale          # pixels are bright above this
            m = len(c["lv"])
            # the brightest at d, the others within a radius of it
            lum = np.array(c["lv"], float) * unitl * 1.01 / (1.999 if r.random() < .7 else 9.95 if r.random() < .3 else 2.9)
            ang = np.concatenate(([0], rad * r.uniform(.01, .98, m - 1)))
            om = np.full(m, pa * c["om"] / 100)
            if r.random() < .5:            # no ties
                lum *= 1 - .01 * np.arange(m) * r.uniform(.1, 1)
                if r.random() < .5:
                    lum[1:] *= r.uniform(.7, 1, m - 1)
                om *= r.uniform(.7, 1.3, m)
            elif c["lv"][0] == c["lv"][1]:
                ang = ang * .49
            # bright ones outside the radius, dim ones everywhere
            k = int(r.choice([0, 2, 4, 8]))
            stray = r.random() < .5
            if stray:                      # groups of secondary sources
                k = int(r.integers(4, 20))
                lum *= 20
            top = lum.max()
            v = [around(r, d, ang)]
            sec = rad * r.choice([1.05, 1.5, 6, 20, 30], k) * r.uniform(1, 1.2, k)
            if k:
                c2 = around(r, d, np.array([min(rad * 25, 2.)]))[0]
                v += [around(r, d, sec[: k // 2]), around(r, c2, rad * r.uniform(0, 9, k - k // 2))]
            if stray:
                cs = around(r, d, np.minimum(rad * r.choice([9, 14, 20, 26], 3), 2.5))
                v[1:] = [around(r, cs[i % 3], [rad * r.choice([0, 1, 5, 7.5, 8.5, 12])]) for i in range(k)]
            q = int(r.choice([0, 1, 3, 10]))
            v.append(around(r, d, rad * 10. ** r.uniform(-1, 1.5, q)))
            v = np.vstack(v)
            lum = np.concatenate((lum, top * r.uniform(.2 if stray else .05, .99, k), unitl * r.uniform(0, .99, q)))
            om = np.concatenate((om, pa * r.uniform(.01, 2, k + q)))
            k = np.abs(lum / unitl - 1) < 1e-6
            lum[k] = unitl * 1.1
            k = r.permutation(len(lum))
            v, om, lum = v[k], om[k], lum[k]
            # nothing right on the radii
            dots = (v @ v.T)[np.ix_(lum > unitl, lum > unitl)]
            if np.any(np.abs(dots - np.cos(rad)) < 1e-9) or np.any(np.abs(dots - np.cos(8 * rad)) < 1e-9):
                continue
            wt = []
            col = int(r.choice([0, 0, 3, 3, 2]))
            data = lum
            if col:
                wt = (.265, .670, .065) if col == 3 and r.random() < .6 else tuple(r.uniform(.2, 1, col))
                data = r.uniform(.1, 1, (len(lum), col))
                data *= (lum / (data @ np.array(wt)))[:, None]
                if wt != (.265, .670, .065):
                    kw["vlambda"] = wt
                else:
                    kw.pop("vlambda", None)
            lv = data @ np.array(wt) if col else data
            if np.any(np.abs(lv / unitl - 1) < 1e-9):
                continue
            near = lv / lv.max()
            if np.any(np.abs(near - kw.get("blurtol", .75)) < 1e-9) and kw.get("blurtol", .75) != 1:
                continue
            if kw.get("blurtol") == 1 and col:
                kw["blurtol"] = .999999
            base = dict(v=arr(v), o=arr(om), l=arr(np.reshape(data, (len(lum), -1))), wt=arr(wt) if col else [], s=fx(scale),
                        peakt=fx(peakt), peaka=fx(pa), peakrad=fx(pr), peakr=fx(kw.get("peakr", 4)), tol=fx(kw.get("blurtol", .75)),
                        peakc=fx(kw.get("peakc", 1)), blur=blur)
            f = imagetools.normalize_peak

            def inv():
                keep = v.copy(), om.copy(), data.copy()
                z = f(v, om, data, returnparts=True, keepzeros=True, **kw)
                pc = np.flatnonzero(z[2] == 0)
                none = not isinstance(z[0], tuple)
                parts = f(v, om, data, returnparts=True, **kw)
                only = f(v, om, data, returnall=False, **kw)
                zall = f(v, om, data, keepzeros=True, **kw)
                out = {"pc": ints(pc), "all": vol(*f(v, om, data, **kw)), "parts": vol(*parts[1:]), "zeros": vol(*z[1:]), "zall": vol(*zall),
                       "none": [], "src": [], "srcs": []}
                if none:
                    out["none"] = arr(np.concatenate([np.ravel(i) for i in (z[0], parts[0], only)]))
                else:
                    fp = imagetools.find_peak(v, om, data, **kw)
                    out.update(src=src(z[0]), srcs=[src(parts[0]), src(only), src(f(v, om, data, findsecondary=True, **kw)[0]), src(fp[0])])
                    if sorted(ints(fp[2])) != ints(pc):
                        raise ValueError("find_peak selects other pixels")
                out["same"] = bool(all(np.array_equal(x, y) for x, y in zip(keep, (v, om, data))))
                return out
            rec.call("peak", inv, **base)
            s = np.sort(lv[lv > unitl])
            k4 = 4 * unitl
            if len(s) > 1 and np.min(np.diff(s)) > 1e-9 * s[-1] and np.all(np.abs(s / k4 - 1) > 1e-9):
                def sec():
                    p, st = f(v, om, data, findsecondary=True, **kw)
                    return {"second": [src(i) for i in st]}
                rec.call("second", sec, **base)
    for n in range(40):
        if not rec.mine():
            continue
        r = rng(201, n)
        m = int(r.choice([1, 5]))
        o = PEAKA * 10. ** r.uniform(-2, 1, m)
        lmin, fw = (279.33, .183333) if n % 2 else (float(r.uniform(10, 1000)), float(r.uniform(.05, .5)))
        lm = lmin * 10. ** r.uniform(-1, 5, m)

        def bl():
            a = retina.blur_sun(o, lm) if n % 2 else retina.blur_sun(o, lm, lmin, fw)
            if n % 3 == 0:
                a = np.array([float(retina.blur_sun(float(i), float(j), lmin, fw)) for i, j in zip(o, lm)])
            return {"f": arr(a)}
        rec.call("blur", bl, o=arr(o), lm=arr(lm), lmin=fx(lmin), fw=fx(fw))
    rec.end()


if __name__ == "__main__":
    main()
