"""C11: view membership, solid angles, areas."""
import numpy as np

from base import *
from d10 import unit, make
from raytools.mapper import ViewMapper, SolidViewMapper, Mapper


def around(r, n, d, edge):
    """directions at all angles, many near the rim of the view"""
    d = unit(d)
    a = unit(np.cross(d, unit(r.normal(size=(n, 3)))))
    t = r.uniform(0, np.pi, n)
    k = r.random(n) < .5
    t[k] = edge + r.choice([-1, 1], k.sum()) * 10.0 ** r.uniform(-6, 0, k.sum())
    t[r.random(n) < .05] = 0
    t[r.random(n) < .05] = np.pi
    return unit(np.cos(t)[:, None] * d + np.sin(t)[:, None] * a)


def flatidx(ix, sh):
    return ints(np.ravel_multi_index(ix, sh)) if len(ix[0]) else []


def main():
    rec = Rec()
    for rep in range(30 if THOROUGH else 6):
        for n, c in enumerate(rec.cases):
            r = rng(11, rep, n, rec.shard)
            d, va = np.array(c["d"], float), c["va"]
            if rep % 2:
                d = d + r.normal(size=3) * .3
            full = va == 360
            if not full and rep > 2:
                va = float(va - r.uniform(0, 4))
            t = 180 if full else va
            base = dict(d=arr(d), va=fx(t), full=full)
            cls = SolidViewMapper if not full and rep % 4 == 3 else ViewMapper
            vm = make(cls, d, va, r, (0, 0, 0))
            h = t * np.pi / 360
            edge = (2 * np.sin(np.pi / 4) / (np.pi / 2)) / (2 * np.sin(h / 2) / h) * h
            sh = [(12,), (3, 4), (1,), (2, 3, 2), (12,), (6, 2)][int(r.integers(0, 6))]
            tol = float(r.choice([0, 0, .01, -.02, .2, .5]))
            w = around(r, int(np.prod(sh)), d, edge + tol)
            v = w.reshape(*sh, 3)
            kw = {"tol": tol} if tol else {}

            def inv():
                m = vm.in_view(v, indices=False, **kw)
                ix = vm.in_view(v, **kw) if rep % 2 else vm.in_view(v, True, **kw)
                return {"mask": [bool(i) for i in m], "nd": len(ix), "idx": flatidx(ix, sh)}
            rec.call("in", inv, w=arr(w), sh=list(sh) + [3], tol=fx(tol), **base)
            rec.call("ang", lambda: {"ct": arr(vm.ctheta(v)), "rad": arr(vm.radians(v)), "deg": arr(vm.degrees(v))}, w=arr(w), **base)
            res = int(r.choice([16, 40, 64, 101, 400]))
            p = r.integers(0, res, (10, 2)) + .5
            p[0] = (res // 2 + .5, res // 2 + .5)
            p[1:3] = r.random((2, 2)) * res
            pp = p.reshape(2, 5, 2) if rep % 2 else p
            if cls is ViewMapper:
                def om():
                    o = vm.pixel2omega(pp, res)
                    return {"om": arr(o.ravel()), "sh": shp(o)}
                rec.call("omega", om, px=arr(p), res=res, wsh=shp(pp)[:-1], **base)
            hemi = t == 180 and cls is ViewMapper

            def area():
                s = 0.0
                if hemi:
                    px = vm.pixels(res)
                    o = vm.pixel2omega(px, res)
                    s = np.sum(o[np.hypot(*np.moveaxis(px / res - .5, -1, 0)) <= .5])
                return {"area": fx(vm.area), "sum": fx(s)}
            rec.call("area", area, res=res, hemi=hemi, **base)
    for n in range(40):
        if not rec.mine():
            continue
        r = rng(111, n)
        b = np.sort(r.integers(-20, 20, (2, 2)) / 4, axis=0)
        b[1] += .25
        vm = Mapper(sf=b[1] - b[0], bbox=b)
        if n % 8 == 0:     # the unit box is the default
            b, vm = np.array([(0., 0), (1, 1)]), Mapper()
        w = np.column_stack((r.uniform(-6, 6, (12, 2)), np.zeros(12)))
        k = r.random(12) < .6
        w[k, :2] = b[0] + r.random((k.sum(), 2)) * (b[1] - b[0])

        def pl():
            m = vm.in_view(w, indices=False)
            ix = vm.in_view(w)
            o = vm.pixel2omega(w[:, :2], 60)
            return {"mask": [bool(i) for i in m], "nd": len(ix), "idx": flatidx(ix, (12,)), "om": arr(o), "n": int(np.prod(vm.framesize(60)))}
        rec.call("plan", pl, w=arr(w), b=arr(b), np=12)
    rec.end()


if __name__ == "__main__":
    main()
