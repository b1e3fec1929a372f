"""C10: projections of mappers, fresh or turned to a new direction."""
import itertools

import numpy as np

from base import *
from raytools.mapper import ViewMapper, SolidViewMapper, Mapper
from raytools.mapper.perspectiveviewmapper import PerspectiveViewMapper


def unit(d):
    d = np.asarray(d, float)
    return d / np.linalg.norm(d, axis=-1)[..., None]


def sphere(r, n, d):
    """random, axis aligned, near the view's axis and rim"""
    w = r.normal(size=(n, 3))
    a = np.array(list(itertools.product((-1., 0, 1), repeat=3)))
    a = a[np.any(a != 0, 1)]
    k = r.random(n) < .3
    w[k] = a[r.integers(0, len(a), k.sum())]
    k = r.random(n) < .25
    w[k] = r.choice([-1, 1], (k.sum(), 1)) * unit(d) + r.normal(size=(k.sum(), 3)) * 10.0 ** r.integers(-7, 0, (k.sum(), 1))
    return unit(w)


def make(cls, d, va, r, origin):
    """the view, set at once or after another one"""
    kw = {"viewangle": va, "origin": origin}
    if not any(origin) and cls in (ViewMapper, SolidViewMapper):
        kw.pop("origin")
    m = int(r.integers(0, 3))
    if m == 0:
        return cls(d, **kw)
    if m == 1:
        vm = cls(r.normal(size=3), **kw)
        vm.ray2pixel(np.array([d]), 8)
        vm.dxyz = np.asarray(d) * r.uniform(.5, 3)
        return vm
    vm = cls((0, 0, 1), **kw)
    vm.dxyz = r.normal(size=3)
    vm.dxyz = [*d, 7, 8, 9][:int(r.choice([3, 6]))]
    return vm


def flat(x, n):
    return arr(np.reshape(x, (-1, n)))


def origins(x, y):
    """origin and ray columns of stacked rays, the rays as without origin"""
    x = np.asarray(x)
    same = np.allclose(x[..., 3:], y, atol=1e-12)
    return {"o": flat(x[..., :3], 3) if same else [["differs"]], "osh": shp(x[..., 3:]), "wsh": shp(y)}


def view(rec, n, d, va):
    r = rng(10, n, rec.shard)
    full = va == 360
    if not full and r.random() < .5:
        va = float(va + r.uniform(-9, 0))
    d = np.array(d, float)
    m = r.random()
    if m < .35:
        d = d + r.normal(size=3) * 10.0 ** r.integers(-5, 0)
    elif m < .45:
        d = np.array([*(r.normal(size=2) * 1e-5), r.choice([-1, 1])])
    org = [float(i) for i in r.integers(-5, 6, 3) * (r.random() < .8)]
    base = dict(d=arr(d), va=fx(180 if full else va), full=full)
    vm = make(ViewMapper, d, va, r, org)
    w = sphere(r, 12, d)

    def rot():
        x = vm.world2view(w)
        return {"r": arr(x), "back": arr(vm.view2world(x))}
    rec.call("rot", rot, w=arr(w), **base)
    rec.call("pos", lambda: {"xy": arr(vm.xyz2vxy(w))}, w=arr(w), **base)
    xy = r.random((12, 2))
    k = r.random(12) < .3
    xy[k] = .5 + r.normal(size=(k.sum(), 2)) * 10.0 ** r.integers(-8, -1, (k.sum(), 1))
    k = r.random(12) < .2
    xy[k] = r.choice([0, .5, 1], (k.sum(), 2))
    xx = xy.reshape(3, 4, 2) if n % 2 else xy

    def ray():
        x = vm.vxy2xyz(xx)
        s = vm.vxy2xyz(xx, stackorigin=True) if x.ndim == 2 else None
        o = origins(s, x) if s is not None else {"o": [], "osh": shp(x), "wsh": shp(x)}
        return {"w": flat(x, 3), "back": flat(vm.xyz2vxy(x.reshape(-1, 3)), 2), **o}
    rec.call("ray", ray, xy=arr(xy), origin=arr(org), **base)
    res = int(r.choice([1, 2, 3, 5, 8, 16, 33, 64]))

    def pix():
        x = vm.pixelrays(res)
        P = [(i, j) for i in range(x.shape[0]) for j in range(x.shape[1])]
        if len(P) > 24:
            P = [P[i] for i in r.permutation(len(P))[:24]]
        q = np.array([x[i, j] for i, j in P])
        p = vm.ray2pixel(q, res if n % 3 else (res, res))
        f = vm.ray2pixel(q, res, False)
        c = vm.pixels(res).reshape(res, res, 2)
        w2 = [vm.pixel2ray(c[i % res, j][None], res)[0] for i, j in P]
        y = vm.pixels(res, jitter=jit) if n % 2 else vm.pixels(res, jit)
        y = vm.pixel2ray(y.reshape(-1, 2), res).reshape(*y.shape[:2], 3)
        g = vm.ray2pixel(np.array([y[i % res, j] for i, j in P]), res, integer=False)
        return {"sh": shp(x), "px": ints(P), "w": arr(q), "pos": ints(p), "fpos": arr(f), "w2": arr(w2), "jsh": shp(y), "jpos": arr(g)}
    jit = float(r.choice([1, .5, .1]))
    rec.call("pix", pix, res=res, jit=fx(jit), **base)
    uv = r.random((12, 2)) * ((2, 1) if full else (1, 1))
    k = r.random(12) < .25
    uv[k] = r.choice([0, .25, .5, .75, 1], (k.sum(), 2))

    def suv():
        x = vm.uv2xyz(uv)
        return {"w": arr(x), "back": arr(vm.xyz2uv(x)), **origins(vm.uv2xyz(uv, stackorigin=True), x)}
    rec.call("uv", suv, uv=arr(uv), origin=arr(org), **base)
    rec.call("xuv", lambda: {"uv": arr(vm.xyz2uv(w))}, w=arr(w), **base)
    if not full or True:
        t = 180 if full else va
        a = r.uniform(0, 2 * np.pi, 12)
        rad = np.sqrt(r.random(12)) * .499
        rad[:2] = 10.0 ** r.uniform(-9, -2, 2)
        so = .5 + np.stack((np.cos(a), np.sin(a)), 1) * rad[:, None]
        cls = n % 2 == 0 or full
        sm = vm if cls else make(SolidViewMapper, d, t, r, org)
        fw = sm.solid_vxy2xyz if cls else sm.vxy2xyz
        bw = sm.solid_xyz2vxy if cls else sm.xyz2vxy
        p2r = sm.solid_pixel2ray if cls else sm.pixel2ray
        r2p = sm.solid_ray2pixel if cls else sm.ray2pixel
        if not full:
            def solid():
                x = fw(so)
                px = [(i, j) for i in range(9) for j in range(9) if np.hypot(i + .5 - 4.5, j + .5 - 4.5) < 4.45]
                q = p2r(np.array(px) + .5, 9)
                y = (sm.solid_pixelrays if sm is vm else sm.pixelrays)(9)
                if shp(y) != [9, 9, 3] or not np.allclose([y[i, j] for i, j in px], q, atol=1e-12, rtol=0):
                    raise ValueError("rays of pixels differ")
                z = sm.solid_pixelrays(9, jitter=.02)
                if shp(z) != [9, 9, 3] or (sm is vm and np.allclose(z, y, atol=1e-9, rtol=0)):
                    raise ValueError("jitter")
                if sm is vm and ints(r2p([z[i, j] for i, j in px], 9)) != ints(px):
                    raise ValueError("jitter leaves pixels")
                return {"w": arr(x), "back": arr(bw(x)), "px": ints(px), "pos": ints(r2p(q, 9)),
                        **origins(fw(so, stackorigin=True), x)}
            rec.call("solid", solid, xy=arr(so), origin=arr(org), persp=False, **base)
        if t < 175 and n % 3 == 0:
            # the same for the mapper that is called perspective
            def other(d, viewangle, origin):
                k = dict(vv=viewangle, vh=viewangle * r.uniform(.3, 1))
                return PerspectiveViewMapper(d, origin=origin, **(k if r.random() < .5 else dict(vv=k["vh"], vh=k["vv"])))
            sm = make(other, d, t, r, org)
            fw, bw, p2r, r2p = sm.vxy2xyz, sm.xyz2vxy, sm.pixel2ray, sm.ray2pixel
            rec.call("solid", solid, xy=arr(so), origin=arr(org), persp=True, kf="perspective-mapper", **base)


def plan(rec, n):
    r = rng(101, n)
    b = np.sort(r.integers(-20, 20, (2, 2)) / 4, axis=0)
    b[1] += .25
    sf = b[1] - b[0]
    z = float(r.integers(-4, 5))
    org = [float(i) for i in r.integers(-5, 6, 3)]
    org = org if n % 5 else [0., 0., 0.]
    asp = float(r.choice([.5, 1, 2, 1.5])) if n % 4 >= 2 else sf[0] / sf[1]
    vm = Mapper(sf=sf, bbox=b, uvz=z, **({"origin": org} if n % 5 else {}), **({"aspect": asp} if n % 4 == 2 else {}))
    p = np.column_stack((r.uniform(-10, 10, (8, 2)), np.full(8, z)))
    res = int(r.integers(1, 40))
    if n % 4 == 3:
        vm.aspect = asp
    wf = (res, int(round(res / asp))) if asp >= 1 else (int(round(res * asp)), res)

    def go():
        uv = vm.xyz2uv(p)
        o = origins(vm.uv2xyz(uv, stackorigin=True), vm.uv2xyz(uv))
        return {"uv": arr(uv), "back": arr(vm.uv2xyz(uv)), "frame": ints(vm.framesize(res)), "o": o["o"]}
    rec.call("plan", go, p=arr(p), b=arr(b), sf=arr(sf), z=fx(z), wframe=list(wf), origin=arr(org))

    def pp():
        q = vm.pixels(12).reshape(-1, 2)
        return {"px": ints(np.floor(q)), "pos": ints(vm.ray2pixel(vm.pixel2ray(q, 12), 12)), "nx": int(vm.framesize(12)[0])}
    rec.call("planpix", pp, kf="planar-pixel-mirror")


def main():
    rec = Rec()
    for rep in range(8 if THOROUGH else 1):
        for n, c in enumerate(rec.cases):
            view(rec, rep * 10000 + n, c["d"], c["va"])
    for n in range(40):
        if rec.mine():
            plan(rec, n)
    rec.end()


if __name__ == "__main__":
    main()
