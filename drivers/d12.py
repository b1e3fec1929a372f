"""C12: initialising and painting images."""
import re

import numpy as np

from base import *
from d10 import unit, make
from raytools import io
from raytools.mapper import ViewMapper, Mapper

NUM = r"(-?[0-9.e+-]+)"


def pixels(img):
    return arr(img if img.ndim == 3 else img[None])


def header(h):
    """the view named by a header line"""
    def grab(o, n):
        m = re.search(f"-{o} " + " ".join([NUM] * n) + r"(\s|$)", h)
        return [float(m.group(i + 1)) for i in range(n)]
    t = re.findall(r"-(vt[a-z]|vuv|vte)\s", h)
    return {"hdr": t[0] if len(t) == 1 and h.startswith("VIEW=") else "?" + h, "vd": arr(grab("vd", 3)), "vp": arr(grab("vp", 3)),
            "vvh": arr(grab("vv", 1) + grab("vh", 1)), "vu": arr(grab("vu", 3))}


def init_event(vm, r, base, proj, feat, indices, res, pt):
    full = base["full"]
    names = {"vta": ["vta", "angular", "A", "fish", "Fisheye"], "vte": ["vte", "equi", "E"], "vuv": ["vuv", "u", "square", "Shirley"]}[proj]
    hold = {}

    def go():
        kw = dict(features=feat, viewproj=names[int(r.integers(0, len(names)))], indices=indices)
        if proj == "vta" and feat == 1 and indices and r.random() < .3:
            kw = {}
        img, vecs, mask, mask2, hdr = vm.init_img(res, pt, **kw)
        out = {"ish": shp(img), "zero": bool(np.all(img == 0)), "vsh": shp(vecs), "feat": feat, "idx": [], "idx3": [], "mask": [],
               "all": [], "same": mask2 is mask or (mask is None and mask2 is None)}
        allp = [(i, j) for i in range(vecs.shape[0]) for j in range(vecs.shape[1])]
        px = [allp[i] for i in r.permutation(len(allp))[:12]]
        out["px"], out["w"] = ints(px), arr([vecs[p] for p in px])
        out["img"] = pixels(img)
        if mask is None:
            out["mform"] = "none"
        else:
            out["all"] = [[list(p), arr(vecs[p])] for p in allp]
            if indices:
                out["mform"] = "index"
                m = np.zeros(vecs.shape[:2], bool)
                m[mask] = True
                out["mask"] = [bool(i) for i in m.ravel()]
                out["idx"] = ints(np.stack(mask[:2]).T)
                if feat > 1:
                    out["idx3"] = ints(np.stack(mask2).T)
            else:
                out["mform"] = "bool"
                out["mask"] = [bool(i) for i in np.ravel(mask)]
        out.update(header(hdr))
        hold.update(img=img, mask=mask)
        return out
    kf = {"kf": "vte-direction"} if proj == "vte" else {}
    return event("init", go, proj=proj, res=res, pt=arr(pt), **kf, **base), hold


def value(r, c):
    return float(c) * float(r.choice([1, 1, .25, 10, 0]))


def paints(r, vm, hist, hold, base, how, evs, gen, kwp, feat):
    for nP, c, g in hist:
        img = hold["img"]
        n = [0, 1, 2, 3, 6][nP] + 1
        w = gen(n)
        if img.ndim == 2:
            v = value(r, c)
            ch = v if r.random() < .4 else (v, 0, 0)[:int(r.integers(1, 4))]
            che = [[fx(v)]]
        else:
            ch = [None if r.random() < .25 and how != "plane" else value(r, c) for _ in range(img.shape[0])]
            che = [[] if v is None else [fx(v)] for v in ch]
        kw = dict(kwp, channels=ch)
        if ch == 1.0 or r.random() < .1 and how == "fish" and img.ndim == 2 and c == 1:
            kw.pop("channels")
            che = [[fx(1)]]
        if g:
            kw["grow"] = g
        me = []
        masked = False
        if how == "fish" and hold.get("mask") is not None and r.random() < .5 and isinstance(hold["mask"], tuple):
            masked = True
            k = r.random(len(hold["mask"][0])) < .7
            k[:1] = True
            m = tuple(i[k] for i in hold["mask"])
            kw["mask"] = m
            me = ints(np.stack(m).T)

        def go():
            w0 = w.copy()
            im = vm.add_vecs_to_img(img, w, **kw)
            if not np.array_equal(w0, w):
                raise RuntimeError("directions changed")
            hold["img"] = im
            return {"img": pixels(im)}
        e = event("paint", go, how=how, w=arr(w), ch=che, grow=g, masked=masked, mask=me, rt=[0], **base)
        evs.append(e)
        if e["exc"]:
            return


def main():
    rec = Rec()
    dirs = [(0, 0, 1), (0, 0, -1), (0, 1, 0), (-1, 2, 1), (3, -1, -2), (1, 0, 0), (0, -1, 0)]
    for rep in range(6 if THOROUGH else 1):
        for n, c in enumerate(rec.cases):
            r = rng(12, rep, n, rec.shard)
            if rep == 0 and n % 3 and not THOROUGH:
                continue
            d = np.array(dirs[int(r.integers(0, len(dirs)))], float)
            if r.random() < .4:
                d = d + r.normal(size=3) * .3
            va = int(r.choice([360, 180, 180, 120, 60, 20]))
            full = va == 360
            t = 180 if full else va
            base = dict(d=arr(d), va=fx(t), full=full)
            pt = [float(i) for i in r.integers(-4, 5, 3) / 2]
            vm = make(ViewMapper, d, va, r, (0, 0, 0))
            res = int(r.choice([3, 4, 5, 7, 10]))
            feat = int(r.choice([1, 1, 2, 3]))
            proj = ["vta", "vta", "vta", "vuv"][int(r.integers(0, 4))]
            e, hold = init_event(vm, r, base, proj, feat, bool(r.random() < .7), res, pt)
            evs = [e]
            h = t * np.pi / 360
            edge = (2 * np.sin(np.pi / 4) / (np.pi / 2)) / (2 * np.sin(h / 2) / h) * h

            def gen(k):
                u = unit(d)
                a = unit(np.cross(u, r.normal(size=(k, 3))))
                x = edge * np.sqrt(r.random(k))
                far = r.random(k) < .2
                x[far] = r.uniform(0, np.pi, far.sum())
                rim = r.random(k) < .2
                x[rim] = edge * (1 - 10.0 ** r.uniform(-5, -2, rim.sum()))
                return np.cos(x)[:, None] * u + np.sin(x)[:, None] * a
            how = "square" if proj == "vuv" or r.random() < .3 else "fish"
            if not e["exc"]:
                paints(r, vm, c["h"], hold, base, how, evs, gen, {"fisheye": False} if how == "square" else {}, feat)
            rec.begin({"n": n, "kinds": [x["k"] for x in evs]})
            rec.chain(evs)
    for n in range(60 if THOROUGH else 24):
        if not rec.mine():
            continue
        r = rng(121, n)
        d = np.array(dirs[n % len(dirs)], float)
        vm = make(ViewMapper, d, 180, r, (0, 0, 0))
        base = dict(d=arr(d), va=fx(180), full=False)
        e, _ = init_event(vm, r, base, "vte", 1 + 2 * (n % 2), bool(n % 3), int(r.integers(3, 10)), [0., 1., 2.])
        rec.begin({"vte": n})
        rec.chain([e])
    for n in range(80 if THOROUGH else 32):
        if not rec.mine():
            continue
        r = rng(122, n)
        b = np.sort(r.integers(-20, 20, (2, 2)) / 4, axis=0)
        b[1] += 1.25
        vm = Mapper(sf=b[1] - b[0], bbox=b)
        base = dict(d=arr([0, 0, 1]), va=fx(180), full=False, b=arr(b))
        W, H = vm.framesize(int(r.integers(12, 16)))
        feat = [1, 3][n % 2]
        img = np.zeros((feat, W, H)) if feat > 1 else np.zeros((W, H))
        hold = {"img": img}
        evs = [event("new", lambda: {"img": pixels(img)})]
        paints(r, vm, [(3, 1, int(r.integers(0, 2))), (4, 3, 0)], hold, base, "plane", evs,
               lambda k: np.column_stack((b[0] + r.uniform(-.1, 1.1, (k, 2)) * (b[1] - b[0]), r.normal(size=k))), {}, feat)
        rec.begin({"plane": n})
        rec.chain(evs)
    for n in range(32):        # plot: the same, written to a file
        if not rec.mine():
            continue
        r = rng(123, n)
        d = np.array(dirs[n % len(dirs)], float)
        va = [180, 120][n % 2]
        vm = make(ViewMapper, d, va, r, (0, 0, 0))
        base = dict(d=arr(d), va=fx(va), full=False)
        res = int(r.integers(8, 12))
        g = int(r.integers(0, 3))
        w = unit(d) + r.normal(size=(4, 3)) * .5
        w = unit(w)
        kw = {} if g == 1 else {"grow": g}
        evs = [event("new", lambda: {"img": pixels(np.zeros((res, res)))})]

        def go():
            vm.plot(w, "p.hdr", res=res, **kw)
            return {"img": pixels(io.hdr2array("p.hdr"))}
        evs.append(event("paint", go, how="fish", w=arr(w), ch=[[fx(1)]], grow=g, masked=False, mask=[], rt=fx(.01), **base))
        rec.begin({"plot": n})
        rec.chain(evs)
    rec.end()


if __name__ == "__main__":
    main()
